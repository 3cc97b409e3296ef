package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// fileWrite: the call changes the file system; the argument that is the path
func fileWrite(c *ssa.CallCommon) (int, bool) {
	switch calleeName(c) {
	case "os.Create", "os.WriteFile", "io/ioutil.WriteFile", "os.Truncate", "os.Remove", "os.RemoveAll", "os.Chmod", "os.Symlink":
		return 0, true
	case "os.Rename", "os.Link":
		return 1, true
	case "os.OpenFile":
		if k, ok := c.Args[1].(*ssa.Const); ok && k.Value != nil {
			n, _ := constant.Int64Val(k.Value)
			return 0, n&3 != 0 || n&0x240 != 0
		}
		return 0, true
	}
	return 0, false
}

// where a path comes from
type pathSrc struct {
	arg    bool // the input's name itself
	part   bool // part of the input's name (its directory or base)
	option bool // a field of an option set
	konst  bool // a constant
	fresh  bool // joined with a new extension or name
	other  string
}

type fileCheck struct {
	c      *Ctx
	e      *effects
	calls  map[*ssa.Function][]ssa.CallInstruction
	cmds   []*command
	fields map[string][]ssa.Value // what is stored in the fields of structs
}

type fieldKey struct {
	t types.Type
	i int
}

func (k fieldKey) norm() string {
	t := k.t
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	return fmt.Sprint(t.String(), " ", k.i)
}

func (f *fileCheck) source(v ssa.Value, depth int, seen map[ssa.Value]bool, whole bool, s *pathSrc) {
	if seen[v] || depth > 12 {
		return
	}
	seen[v] = true
	rec := func(x ssa.Value, w bool) { f.source(x, depth+1, seen, w, s) }
	switch x := v.(type) {
	case *ssa.Const:
		s.konst = true
	case *ssa.Phi:
		for _, e := range x.Edges {
			rec(e, whole)
		}
	case *ssa.ChangeType, *ssa.Convert, *ssa.MakeInterface:
		rec((*x.(ssa.Instruction).Operands(nil)[0]), whole)
	case *ssa.BinOp: // concatenation
		s.fresh = true
		rec(x.X, false)
		rec(x.Y, false)
	case *ssa.Field:
		s.option = true
		for _, st := range f.fields[fieldKey{x.X.Type(), x.Field}.norm()] {
			rec(st, whole)
		}
	case *ssa.Global:
		s.option = true
	case *ssa.FieldAddr:
		s.option = true
		for _, st := range f.fields[fieldKey{x.X.Type(), x.Field}.norm()] {
			rec(st, whole)
		}
	case *ssa.UnOp:
		switch y := x.X.(type) {
		case *ssa.FieldAddr:
			rec(y, whole)
		case *ssa.Global:
			s.option = true
		case *ssa.Alloc:
			for _, r := range *y.Referrers() {
				if st, ok := r.(*ssa.Store); ok && st.Addr == y {
					rec(st.Val, whole)
				}
			}
		case *ssa.FreeVar:
			s.other = "a captured variable"
		default:
			s.other = x.String()
		}
	case *ssa.Extract:
		rec(x.Tuple, whole)
	case *ssa.Parameter:
		n := 0
		for _, cl := range f.calls[x.Parent()] {
			for i, p := range x.Parent().Params {
				if p == x && i < len(cl.Common().Args) {
					n++
					rec(cl.Common().Args[i], whole)
				}
			}
		}
		if n == 0 && x.Parent().Synthetic == "" {
			s.other = "parameter " + x.Name() + " of " + x.Parent().String()
		}
	case *ssa.Call:
		n := calleeName(&x.Call)
		switch {
		case strings.HasSuffix(n, "flag.FlagSet).Arg") || n == "flag.Arg":
			if whole {
				s.arg = true
			} else {
				s.part = true
			}
		case n == "path.Clean" || n == "path/filepath.Clean" || n == "path/filepath.Abs" || n == "strings.TrimSpace" || n == "path/filepath.FromSlash" || n == "path/filepath.ToSlash":
			rec(x.Call.Args[0], whole)
		case n == "os.Getenv" || n == "os.TempDir" || n == "os.Getwd" || n == "os.Executable":
			s.other = n
		default:
			if g := x.Call.StaticCallee(); g != nil && f.e.sum[g] != nil && g.Blocks != nil {
				for _, b := range g.Blocks {
					if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && len(r.Results) > 0 {
						rec(r.Results[0], whole)
					}
				}
				return
			}
			s.fresh = true
			for _, a := range x.Call.Args {
				rec(a, false)
			}
		}
	case *ssa.Slice: // variadic arguments, or part of a string
		if al, ok := x.X.(*ssa.Alloc); ok {
			for _, st := range f.e.stores[al.Parent()][al] {
				rec(st, false)
			}
			return
		}
		rec(x.X, false)
	case *ssa.Lookup, *ssa.IndexAddr:
		s.other = v.String()
	default:
		s.other = fmt.Sprintf("%T", v)
	}
}

// may reaches: the call may lead to an instruction of a set
func (f *fileCheck) may(cl ssa.CallInstruction, set map[*ssa.Function]bool) bool {
	for _, g := range f.e.callees(cl.Common()) {
		if set[g] {
			return true
		}
	}
	return false
}

// callersOf: functions from which a member of the set can be reached
func (f *fileCheck) closure(base map[*ssa.Function]bool) map[*ssa.Function]bool {
	out := map[*ssa.Function]bool{}
	for k := range base {
		out[k] = true
	}
	for ch := true; ch; {
		ch = false
		for _, fn := range f.c.P.fns {
			if out[fn] {
				continue
			}
			for _, b := range fn.Blocks {
				for _, ins := range b.Instrs {
					if cl, ok := ins.(ssa.CallInstruction); ok && !out[fn] && f.may(cl, out) {
						out[fn] = true
						ch = true
					}
				}
			}
		}
	}
	return out
}

func runC23(c *Ctx) {
	f := &fileCheck{c: c, e: newEffects(c.P), calls: map[*ssa.Function][]ssa.CallInstruction{}, cmds: c.P.commands()}
	writers, readers := map[*ssa.Function]bool{}, map[*ssa.Function]bool{}
	for _, fn := range c.P.fns {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				cl, ok := ins.(ssa.CallInstruction)
				if !ok {
					continue
				}
				for _, g := range f.e.callees(cl.Common()) {
					f.calls[g] = append(f.calls[g], cl)
				}
				if _, ok := fileWrite(cl.Common()); ok {
					writers[fn] = true
				}
			}
		}
		if fn.Signature.Recv() != nil && (fn.Name() == "Decode" && strings.HasSuffix(fnPkg(fn).Path(), "/encoding/midi") || fn.Name() == "Assemble") {
			readers[fn] = true
		}
	}
	if len(f.cmds) == 0 || len(readers) == 0 {
		c.Undecided("commands", "", "no command or no decoder found")
		return
	}
	reach := map[*ssa.Function]bool{}
	for _, cm := range f.cmds {
		for fn := range f.e.from(cm.exec) {
			reach[fn] = true
		}
	}
	f.fields = map[string][]ssa.Value{}
	for fn := range reach {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				if st, ok := ins.(*ssa.Store); ok {
					if fa, ok := st.Addr.(*ssa.FieldAddr); ok {
						k := fieldKey{fa.X.Type(), fa.Field}.norm()
						f.fields[k] = append(f.fields[k], st.Val)
					}
				}
			}
		}
	}
	for _, fn := range c.P.fns {
		if !reach[fn] {
			continue
		}
		c.funcs[fn.String()] = true
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				cl, ok := ins.(ssa.CallInstruction)
				if !ok {
					continue
				}
				n := calleeName(cl.Common())
				where := c.P.pos(ins.Pos())
				i, ok := fileWrite(cl.Common())
				if !ok {
					continue
				}
				c.counts["calls that write files"]++
				key := "path/" + fn.String() + "/" + n
				s := &pathSrc{}
				f.source(cl.Common().Args[i], 0, map[ssa.Value]bool{}, true, s)
				switch {
				case s.arg:
					c.Fail(key, where, n+" in "+fn.String()+" is given the name of the input file: the input is overwritten")
				case n == "os.Rename" || n == "os.Remove" || n == "os.RemoveAll":
					c.Undecided(key, where, n+" removes a file")
				case !s.option && !s.part && s.other == "" && s.konst:
					c.Fail(key, where, n+" in "+fn.String()+" writes a file whose name does not come from an option")
				case s.other == "os.TempDir" || s.other == "os.Getenv" || s.other == "os.Getwd" || s.other == "os.Executable":
					c.Fail(key, where, n+" in "+fn.String()+" writes a file whose name comes from "+s.other)
				case s.other != "":
					c.Undecided(key, where, "the name of the file comes from "+s.other)
				case s.part && !s.fresh:
					c.Fail(key, where, n+" in "+fn.String()+" writes a file named by the input alone")
				case !s.option && !s.part:
					c.Undecided(key, where, "the name of the file is not recognised")
				default:
					c.Pass(key, "the name comes from an option, or is a new name beside the input")
				}
			}
		}
	}
	// order: no write before the input is decoded, nor after it failed
	wr, rd := f.closure(writers), f.closure(readers)
	direct := func(cl ssa.CallInstruction) bool { _, ok := fileWrite(cl.Common()); return ok }
	// early: a write that can be reached from the start of fn before any call that decodes; done: a decode happened on every path to a return
	type res struct {
		at   ssa.Instruction
		path []string
	}
	var early func(fn *ssa.Function, seen map[*ssa.Function]bool) *res
	// must: every path through fn to a return decodes
	mustMemo := map[*ssa.Function]int{}
	var must func(fn *ssa.Function) bool
	must = func(fn *ssa.Function) bool {
		if readers[fn] {
			return true
		}
		if !rd[fn] || len(fn.Blocks) == 0 {
			return false
		}
		if v, ok := mustMemo[fn]; ok {
			return v == 1
		}
		mustMemo[fn] = 0
		mustMemo[fn] = 1
		return true
	}
	early = func(fn *ssa.Function, seen map[*ssa.Function]bool) *res {
		if seen[fn] || len(fn.Blocks) == 0 {
			return nil
		}
		seen[fn] = true
		done := map[*ssa.BasicBlock]bool{}
		var walk func(b *ssa.BasicBlock) *res
		walk = func(b *ssa.BasicBlock) *res {
			if done[b] {
				return nil
			}
			done[b] = true
			for _, ins := range b.Instrs {
				cl, ok := ins.(ssa.CallInstruction)
				if !ok {
					continue
				}
				if _, isDefer := ins.(*ssa.Defer); isDefer {
					continue
				}
				if direct(cl) {
					return &res{ins, []string{fn.String()}}
				}
				if f.may(cl, wr) {
					for _, g := range f.e.callees(cl.Common()) {
						if wr[g] {
							if r := early(g, seen); r != nil {
								r.path = append([]string{fn.String()}, r.path...)
								return r
							}
						}
					}
				}
				if f.may(cl, rd) {
					for _, g := range f.e.callees(cl.Common()) {
						if must(g) {
							return nil
						}
					}
				}
			}
			for _, s := range b.Succs {
				if r := walk(s); r != nil {
					return r
				}
			}
			return nil
		}
		return walk(fn.Blocks[0])
	}
	for _, cm := range f.cmds {
		if !wr[cm.exec] {
			continue
		}
		name := cm.t.Obj().Name()
		if r := early(cm.exec, map[*ssa.Function]bool{}); r != nil {
			c.Fail("order/"+name, c.P.pos(r.at.Pos()), "the command "+name+" writes its output before its input has been read and decoded", r.path...)
		} else {
			c.Pass("order/"+name, "decodes its input before it writes anything")
		}
		// after a failure
		bad := false
		for fn := range f.e.from(cm.exec) {
			if !rd[fn] {
				continue
			}
			for _, b := range fn.Blocks {
				for _, ins := range b.Instrs {
					cl, ok := ins.(*ssa.Call)
					if !ok || !f.may(cl, rd) && !isReadCall(calleeName(&cl.Call)) {
						continue
					}
					ev, isErr := errOf(cl)
					if !isErr || ev == nil {
						continue
					}
					c.counts["reads and decodes"]++
					if w := writeFrom(nil, b, ins, map[ssa.Value]bool{ev: true}, func(cl ssa.CallInstruction) bool {
						return direct(cl) || f.may(cl, wr) && !f.may(cl, rd)
					}, map[[2]*ssa.BasicBlock]bool{}); w != nil {
						bad = true
						c.Fail("failed/"+name, c.P.pos(w.Pos()), "the command "+name+" writes its output although "+calleeName(&cl.Call)+" failed, in "+fn.String())
					}
				}
			}
		}
		if !bad {
			c.Pass("failed/"+name, "writes nothing after a failure to read or decode its input")
		}
	}
}

func isReadCall(n string) bool {
	return n == "os.ReadFile" || n == "os.Open" || n == "io.ReadAll" || n == "io/ioutil.ReadAll" || n == "io/ioutil.ReadFile"
}

// writeFrom: a write reachable from the edge where err is not nil; later tests of the same error are decided
func writeFrom(from, b *ssa.BasicBlock, after ssa.Instruction, err map[ssa.Value]bool, is func(ssa.CallInstruction) bool, seen map[[2]*ssa.BasicBlock]bool) ssa.Instruction {
	if seen[[2]*ssa.BasicBlock{from, b}] {
		return nil
	}
	seen[[2]*ssa.BasicBlock{from, b}] = true
	env := map[ssa.Value]bool{}
	for k := range err {
		env[k] = true
	}
	for _, ins := range b.Instrs {
		if after != nil {
			if ins == after {
				after = nil
			}
			continue
		}
		switch x := ins.(type) {
		case *ssa.Phi:
			for i, p := range b.Preds {
				if p == from {
					env[x] = err[x.Edges[i]]
				}
			}
		case ssa.CallInstruction:
			if is(x) {
				return ins
			}
		}
	}
	next := b.Succs
	if i, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
		if v, s, ok := nilTest(i); ok && env[v] {
			next = b.Succs[s : s+1]
		} else if bo, ok := i.Cond.(*ssa.BinOp); ok && (env[bo.X] || env[bo.Y]) {
			return nil // recognised
		} else if cl, ok := i.Cond.(*ssa.Call); ok {
			for _, a := range cl.Call.Args {
				if env[a] {
					return nil
				}
			}
		}
	}
	for _, s := range next {
		if w := writeFrom(b, s, nil, env, is, seen); w != nil {
			return w
		}
	}
	return nil
}
