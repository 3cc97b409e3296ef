package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Effect analysis: which parameters, captured variables and package variables a function may write through.

type root struct {
	kind string // "param", "free", "global"
	idx  int
	g    *ssa.Global
	deep bool   // through a pointer stored in it
	elem bool   // not itself, only what is stored in it
	t    string // of a write: the type written to
}

type rootSet map[root]bool

func (a rootSet) add(b rootSet) bool {
	ch := false
	for k := range b {
		if !a[k] {
			a[k] = true
			ch = true
		}
	}
	return ch
}

type site struct {
	fn    *ssa.Function
	instr ssa.Instruction
	what  string
}

type summary struct {
	writes map[root]site
	ret    []rootSet
}

type effects struct {
	p      *Program
	sum    map[*ssa.Function]*summary
	impls  map[string][]*ssa.Function
	memo   map[ssa.Value]rootSet
	busy   map[ssa.Value]bool
	stores map[*ssa.Function]map[ssa.Value][]ssa.Value
	taken  []*ssa.Function // functions used as values
}

func hasPointers(t types.Type) bool {
	switch x := t.Underlying().(type) {
	case *types.Basic:
		return x.Kind() == types.UnsafePointer
	case *types.Struct:
		for i := 0; i < x.NumFields(); i++ {
			if hasPointers(x.Field(i).Type()) {
				return true
			}
		}
		return false
	case *types.Array:
		return hasPointers(x.Elem())
	case *types.Tuple:
		return true
	case *types.Signature:
		return true
	}
	return true
}

func newEffects(p *Program) *effects {
	e := &effects{p: p, sum: map[*ssa.Function]*summary{}, impls: map[string][]*ssa.Function{}, stores: map[*ssa.Function]map[ssa.Value][]ssa.Value{}}
	taken := map[*ssa.Function]bool{}
	for _, fn := range p.fns {
		e.sum[fn] = &summary{writes: map[root]site{}, ret: make([]rootSet, fn.Signature.Results().Len())}
		for i := range e.sum[fn].ret {
			e.sum[fn].ret[i] = rootSet{}
		}
		if fn.Signature.Recv() != nil {
			e.impls[fn.Name()] = append(e.impls[fn.Name()], fn)
		}
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				var callee ssa.Value
				if c, ok := ins.(ssa.CallInstruction); ok {
					callee = c.Common().Value
				}
				for _, op := range ins.Operands(nil) {
					if f, ok := (*op).(*ssa.Function); ok && f != callee && !taken[f] && p.isRepoFn(f) {
						taken[f] = true
						e.taken = append(e.taken, f)
					}
				}
			}
		}
		st := map[ssa.Value][]ssa.Value{}
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				if s, ok := ins.(*ssa.Store); ok {
					if a := baseAlloc(s.Addr); a != nil {
						st[a] = append(st[a], s.Val)
					}
				}
				if m, ok := ins.(*ssa.MapUpdate); ok {
					st[m.Map] = append(st[m.Map], m.Value, m.Key)
				}
			}
		}
		e.stores[fn] = st
	}
	for ch := true; ch; {
		ch = false
		e.memo, e.busy = map[ssa.Value]rootSet{}, map[ssa.Value]bool{}
		for _, fn := range p.fns {
			if e.analyse(fn) {
				ch = true
			}
		}
	}
	return e
}

// baseAlloc: the local variable an address lies in
func baseAlloc(a ssa.Value) ssa.Value {
	for {
		switch x := a.(type) {
		case *ssa.FieldAddr:
			a = x.X
		case *ssa.IndexAddr:
			if _, ok := x.X.Type().Underlying().(*types.Pointer); ok {
				a = x.X
				continue
			}
			switch x.X.(type) { // an element of a slice of a local array
			case *ssa.Slice, *ssa.MakeSlice:
				a = x.X
				continue
			}
			return nil
		case *ssa.Alloc:
			return x
		case *ssa.MakeSlice:
			return x
		case *ssa.MakeMap:
			return x
		case *ssa.Slice:
			a = x.X
		default:
			return nil
		}
	}
}

func (e *effects) callees(c *ssa.CallCommon) []*ssa.Function {
	if !c.IsInvoke() {
		if f := c.StaticCallee(); f != nil {
			return []*ssa.Function{f}
		}
		if _, ok := c.Value.(*ssa.Builtin); ok {
			return nil
		}
		var out []*ssa.Function
		for _, f := range e.taken {
			if types.Identical(f.Signature, c.Value.Type().Underlying()) {
				out = append(out, f)
			}
		}
		return out
	}
	it, ok := c.Value.Type().Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	var out []*ssa.Function
	for _, f := range e.impls[c.Method.Name()] {
		if types.Implements(f.Signature.Recv().Type(), it) {
			out = append(out, f)
		}
	}
	return out
}

// contents: what the pointers stored in the location at addr may point into
func (e *effects) contents(addr ssa.Value) rootSet {
	if a := baseAlloc(addr); a != nil {
		out := rootSet{}
		for _, v := range e.stores[a.Parent()][a] {
			out.add(e.roots(v))
		}
		return out
	}
	out := rootSet{}
	for r := range e.roots(addr) {
		if !r.elem {
			r.deep = true
		}
		r.elem = false
		out[r] = true
	}
	return out
}

// below: whatever can be reached from the location at addr
func (e *effects) below(addr ssa.Value) rootSet {
	out := rootSet{}
	for r := range e.contents(addr) {
		r.elem = false
		out[r] = true
	}
	return out
}

// roots: what v (a pointer, or a value containing pointers) may point into
func (e *effects) roots(v ssa.Value) rootSet {
	if r, ok := e.memo[v]; ok {
		return r
	}
	if e.busy[v] || !hasPointers(v.Type()) {
		return nil
	}
	e.busy[v] = true
	defer delete(e.busy, v)
	out := rootSet{}
	switch x := v.(type) {
	case *ssa.Parameter:
		for i, p := range x.Parent().Params {
			if p == x {
				out[root{kind: "param", idx: i}] = true
			}
		}
	case *ssa.FreeVar:
		for i, p := range x.Parent().FreeVars {
			if p == x {
				out[root{kind: "free", idx: i}] = true
			}
		}
	case *ssa.Global:
		out[root{kind: "global", g: x}] = true
	case *ssa.Alloc, *ssa.MakeSlice, *ssa.MakeMap:
		for _, w := range e.stores[v.Parent()][v] {
			for r := range e.roots(w) {
				r.elem = true
				out[r] = true
			}
		}
	case *ssa.MakeChan, *ssa.Const, *ssa.Function, *ssa.Builtin:
	case *ssa.FieldAddr:
		out.add(e.roots(x.X))
	case *ssa.IndexAddr:
		out.add(e.roots(x.X))
	case *ssa.UnOp:
		out.add(e.contents(x.X))
	case *ssa.Field:
		out.add(e.roots(x.X))
	case *ssa.Index:
		out.add(e.roots(x.X))
	case *ssa.Slice:
		out.add(e.roots(x.X))
	case *ssa.Phi:
		for _, g := range x.Edges {
			out.add(e.roots(g))
		}
	case *ssa.ChangeType:
		out.add(e.roots(x.X))
	case *ssa.Convert:
		out.add(e.roots(x.X))
	case *ssa.MakeInterface:
		out.add(e.roots(x.X))
	case *ssa.ChangeInterface:
		out.add(e.roots(x.X))
	case *ssa.TypeAssert:
		out.add(e.roots(x.X))
	case *ssa.Lookup:
		out.add(e.elems(x.X))
	case *ssa.Range:
		out.add(e.elems(x.X))
	case *ssa.Next:
		out.add(e.roots(x.Iter))
	case *ssa.MakeClosure:
		for _, b := range x.Bindings {
			out.add(e.roots(b))
		}
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			out.add(e.result(c, x.Index))
		} else {
			out.add(e.roots(x.Tuple))
		}
	case *ssa.Call:
		out.add(e.result(x, 0))
	}
	if len(e.busy) == 1 {
		e.memo[v] = out
	}
	return out
}

// elems: what the elements of a container may point into
func (e *effects) elems(v ssa.Value) rootSet {
	return e.contents(v)
}

func (e *effects) result(c *ssa.Call, i int) rootSet {
	out := rootSet{}
	if b, ok := c.Call.Value.(*ssa.Builtin); ok {
		if b.Name() == "append" {
			out.add(e.roots(c.Call.Args[0]))
			for r := range e.contents(c.Call.Args[1]) {
				r.elem = true
				out[r] = true
			}
		}
		return out
	}
	for _, f := range e.callees(&c.Call) {
		s := e.sum[f]
		if s == nil {
			// an external function: its result may refer to what it was given
			if f.Blocks != nil || f.Pkg != nil {
				for _, a := range c.Call.Args {
					out.add(e.roots(a))
				}
			}
			continue
		}
		if i < len(s.ret) {
			for r := range s.ret[i] {
				out.add(e.mapRoot(&c.Call, f, r))
			}
		}
	}
	return out
}

// mapRoot: a root of the callee in terms of the caller
func (e *effects) mapRoot(c *ssa.CallCommon, f *ssa.Function, r root) rootSet {
	switch r.kind {
	case "global":
		return rootSet{r: true}
	case "param":
		args := c.Args
		if c.IsInvoke() {
			args = append([]ssa.Value{c.Value}, c.Args...)
		}
		if r.idx < len(args) {
			src := e.roots(args[r.idx])
			if r.deep {
				src = e.contents(args[r.idx])
			}
			out := rootSet{}
			for q := range src {
				q.elem = q.elem && !r.deep || r.elem
				out[q] = true
			}
			return out
		}
	case "free":
		if m, ok := c.Value.(*ssa.MakeClosure); ok && r.idx < len(m.Bindings) {
			if r.deep {
				return e.below(m.Bindings[r.idx])
			}
			return e.roots(m.Bindings[r.idx])
		}
	}
	return nil
}

// external functions that write what they are given
var extWrites = map[string]int{"sort.Slice": 0, "sort.SliceStable": 0, "sort.Sort": 0, "sort.Stable": 0, "sort.Strings": 0, "sort.Ints": 0, "slices.Sort": 0, "slices.SortFunc": 0, "slices.SortStableFunc": 0, "slices.Reverse": 0, "encoding/json.Unmarshal": 1, "io.ReadFull": 1, "encoding/binary.Read": 2, "(encoding/binary.bigEndian).PutUint16": 1, "(encoding/binary.bigEndian).PutUint32": 1, "maps.Copy": 0, "maps.DeleteFunc": 0, "slices.Delete": 0, "slices.Insert": 0, "slices.Compact": 0}

func (e *effects) analyse(fn *ssa.Function) bool {
	s := e.sum[fn]
	ch := false
	write := func(rs rootSet, at site) {
		keys := []root{}
		for r := range rs {
			keys = append(keys, r)
		}
		sort.Slice(keys, func(i, j int) bool { return rootKey(keys[i]) < rootKey(keys[j]) })
		for _, r := range keys {
			if r.elem {
				continue
			}
			if r.kind == "global" && !holds(r.g.Type().(*types.Pointer).Elem(), target(at.instr), map[types.Type]bool{}) {
				continue // it leads to no such location
			}
			if t := target(at.instr); t != nil {
				r.t = t.String()
			}
			if _, ok := s.writes[r]; !ok {
				s.writes[r] = at
				ch = true
			}
		}
	}
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			switch x := ins.(type) {
			case *ssa.Store:
				if baseAlloc(x.Addr) == nil {
					write(e.roots(x.Addr), site{fn, ins, "assignment"})
				}
			case *ssa.MapUpdate:
				write(e.roots(x.Map), site{fn, ins, "map assignment"})
			case *ssa.Return:
				for i, r := range x.Results {
					if s.ret[i].add(e.roots(r)) {
						ch = true
					}
				}
			case ssa.CallInstruction:
				c := x.Common()
				if bi, ok := c.Value.(*ssa.Builtin); ok {
					switch bi.Name() {
					case "copy", "delete", "clear":
						write(e.roots(c.Args[0]), site{fn, ins, bi.Name()})
					}
					continue
				}
				for _, f := range e.callees(c) {
					g := e.sum[f]
					if g == nil {
						name := f.String()
						if o := f.Origin(); o != nil {
							name = o.String()
						}
						if i, ok := extWrites[name]; ok && i < len(c.Args) {
							write(e.roots(c.Args[i]), site{fn, ins, f.String()})
						}
						continue
					}
					for r, at := range g.writes {
						write(e.mapRoot(c, f, r), at)
					}
				}
				// a closure called elsewhere: its writes happen
			case *ssa.MakeClosure:
				if f, ok := x.Fn.(*ssa.Function); ok && e.sum[f] != nil {
					for r, at := range e.sum[f].writes {
						switch r.kind {
						case "global":
							write(rootSet{r: true}, at)
						case "free":
							if r.deep {
								write(e.below(x.Bindings[r.idx]), at)
							} else {
								write(e.roots(x.Bindings[r.idx]), at)
							}
						}
					}
				}
			}
		}
	}
	return ch
}

func rootKey(r root) string {
	k := r.kind + string(rune('a'+r.idx))
	if r.g != nil {
		k += r.g.String()
	}
	return k
}

// reach: functions reachable from the given ones by static and interface calls, closures and function values
func (e *effects) reach(from []*ssa.Function) map[*ssa.Function]bool {
	seen := map[*ssa.Function]bool{}
	work := append([]*ssa.Function{}, from...)
	for len(work) > 0 {
		f := work[len(work)-1]
		work = work[:len(work)-1]
		if seen[f] {
			continue
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				if c, ok := ins.(ssa.CallInstruction); ok {
					for _, g := range e.callees(c.Common()) {
						if e.sum[g] != nil {
							work = append(work, g)
						}
					}
				}
				for _, op := range ins.Operands(nil) {
					if op == nil || *op == nil {
						continue
					}
					if g, ok := (*op).(*ssa.Function); ok && e.sum[g] != nil {
						work = append(work, g)
					}
					// a value turned into an interface may have its methods called by the library
					if m, ok := ins.(*ssa.MakeInterface); ok {
						for _, n := range []string{"MarshalJSON", "UnmarshalJSON", "MarshalText", "UnmarshalText", "MarshalBinary", "UnmarshalBinary", "String", "Error", "Format", "Write", "Read", "Less", "Swap", "Len"} {
							if h := e.p.method(m.X.Type(), n); h != nil && e.sum[h] != nil {
								work = append(work, h)
							}
						}
					}
				}
			}
		}
	}
	return seen
}

// executes: the Execute methods of the commands
func (p *Program) executes() []*ssa.Function {
	var out []*ssa.Function
	for _, fn := range p.fns {
		if fn.Name() == "Execute" && fn.Signature.Recv() != nil && fn.Synthetic == "" && strings.HasSuffix(fnPkg(fn).Path(), "/commands") {
			out = append(out, fn)
		}
	}
	return out
}

func init() {
	register(&Check{ID: "C20", Shard: true,
		Rule: "No function reachable from a command's Execute writes package-level state (effect analysis: assignments, map updates, copy, delete and in-place library functions through pointers that lead to a package variable, across calls and closures). A file of two tracks, each holding an event of any kind with free contents, is decoded: the events of the second track must have the values they have when the track is decoded by itself.",
		Run:  runC20})
	register(&Check{ID: "C25", Shard: true,
		Rule: "Effect analysis: validating, disassembling, exporting, tabulating, listing notes and clicks never write through the file they are given. Abstract interpretation: after validating, disassembling and exporting a symbolic file, every object reachable from it is what it was before.",
		Run:  runC25})
}

// target: the type of what an instruction writes to, nil if not known
func target(ins ssa.Instruction) types.Type {
	switch x := ins.(type) {
	case *ssa.Store:
		switch a := x.Addr.(type) {
		case *ssa.FieldAddr:
			return a.X.Type().Underlying().(*types.Pointer).Elem()
		case *ssa.IndexAddr:
			if p, ok := a.X.Type().Underlying().(*types.Pointer); ok {
				return p.Elem()
			}
			return a.X.Type()
		}
		return x.Addr.Type().Underlying().(*types.Pointer).Elem()
	case *ssa.MapUpdate:
		return x.Map.Type()
	}
	return nil
}

// holds: a value of type t may contain or lead to a location of type w
func holds(t, w types.Type, seen map[types.Type]bool) bool {
	if w == nil || types.Identical(t, w) || types.Identical(t.Underlying(), w.Underlying()) {
		return true
	}
	if seen[t] {
		return false
	}
	seen[t] = true
	switch x := t.Underlying().(type) {
	case *types.Pointer:
		return holds(x.Elem(), w, seen)
	case *types.Slice:
		return holds(x.Elem(), w, seen)
	case *types.Array:
		return holds(x.Elem(), w, seen)
	case *types.Map:
		return holds(x.Elem(), w, seen) || holds(x.Key(), w, seen)
	case *types.Chan:
		return holds(x.Elem(), w, seen)
	case *types.Struct:
		for i := 0; i < x.NumFields(); i++ {
			if holds(x.Field(i).Type(), w, seen) {
				return true
			}
		}
	case *types.Interface:
		return true
	}
	return false
}
