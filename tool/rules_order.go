package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C21: nothing that is output depends on the order of a map, the clock, random numbers, addresses or scheduling.

func init() {
	register(&Check{ID: "C21",
		Rule: "Every iteration over a map in the repository is order-insensitive: what it accumulates is a set, a commutative sum, an entry per key, or a list that is sorted by a total order before any other use; it calls nothing with an ordered effect; it leaves early only on an equality test (a lookup) or with a value independent of the entry. No function reads the clock, random numbers, the process environment, or formats an address; no select chooses between two channels that both carry data.",
		Run:  runC21})
}

func isMapT(t types.Type) bool { _, ok := t.Underlying().(*types.Map); return ok }

// a call whose effects, in order, are observable
func orderedCall(name string) bool {
	for _, s := range []string{"fmt.Print", "fmt.Fprint", "log.Print", "io.WriteString", "(*os.File).Write", "(*text/template.Template).Parse", "(*text/template.Template).Execute", "(*bytes.Buffer).Write", "(*strings.Builder).Write", "(*bufio.Writer).Write", "(*encoding/json.Encoder).Encode", "(*encoding/csv.Writer).Write", "encoding/binary.Write"} {
		if strings.HasPrefix(name, s) {
			return true
		}
	}
	return strings.HasSuffix(name, "io.Writer).Write") || strings.Contains(name, "/log.")
}

func sortCall(name string) bool {
	return strings.HasPrefix(name, "sort.") || strings.HasPrefix(name, "slices.Sort")
}

// origins of a value: through conversions, interfaces and slicing
func stripV(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.MakeInterface:
			v = x.X
		case *ssa.ChangeType:
			v = x.X
		case *ssa.ChangeInterface:
			v = x.X
		case *ssa.Convert:
			v = x.X
		case *ssa.UnOp: // a variable set once
			a, ok := x.X.(*ssa.Alloc)
			if !ok || x.Op != token.MUL {
				return v
			}
			var one ssa.Value
			n := 0
			for _, r := range *a.Referrers() {
				if s, ok := r.(*ssa.Store); ok && s.Addr == a {
					one = s.Val
					n++
				}
			}
			if n != 1 {
				return v
			}
			v = one
		default:
			return v
		}
	}
}

type orderCheck struct {
	c     *Ctx
	p     *Program
	e     *effects
	outs  map[*ssa.Function]bool // reach output
	calls map[*ssa.Function][]*ssa.Call
}

// speaks: the function, or something it calls, has ordered effects
func (o *orderCheck) speaks(fn *ssa.Function, seen map[*ssa.Function]bool) bool {
	if fn == nil || seen[fn] || len(seen) > 400 {
		return false
	}
	seen[fn] = true
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			cl, ok := ins.(ssa.CallInstruction)
			if !ok {
				continue
			}
			n := calleeName(cl.Common())
			if orderedCall(n) && !localWriter(cl.Common()) {
				return true
			}
			for _, g := range o.e.callees(cl.Common()) {
				if o.e.sum[g] != nil && o.speaks(g, seen) {
					return true
				}
			}
		}
	}
	return false
}

// localWriter: writes to a buffer of the function itself
func localWriter(c *ssa.CallCommon) bool {
	var w ssa.Value
	if c.IsInvoke() {
		w = c.Value
	} else if len(c.Args) > 0 {
		w = c.Args[0]
	} else {
		return false
	}
	if a, ok := stripV(w).(*ssa.Alloc); ok {
		return !a.Heap || true
	}
	return false
}

func runC21(c *Ctx) {
	o := &orderCheck{c: c, p: c.P, e: newEffects(c.P), calls: map[*ssa.Function][]*ssa.Call{}}
	for _, fn := range c.P.fns {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				if cl, ok := ins.(*ssa.Call); ok {
					if f := cl.Call.StaticCallee(); f != nil {
						o.calls[f] = append(o.calls[f], cl)
					}
				}
			}
		}
	}
	for _, fn := range c.P.fns {
		if fn.Name() == "init" || fn.Synthetic != "" {
			continue
		}
		c.funcs[fn.String()] = true
		bad := false
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				where := c.P.pos(ins.Pos())
				switch x := ins.(type) {
				case ssa.CallInstruction:
					n := calleeName(x.Common())
					if src := ndSource(n); src != "" {
						bad = true
						c.Fail("source/"+fn.String()+"/"+n, where, fn.String()+" calls "+n+", whose result is "+src)
					}
					if (n == "maps.Keys" || n == "maps.Values" || strings.HasPrefix(n, "maps.Keys[") || strings.HasPrefix(n, "maps.Values[")) && x.Value() != nil {
						c.counts["map iterations"]++
						o.iterSeq(fn, x.Value(), where)
					}
					if strings.HasPrefix(n, "fmt.") {
						for _, a := range x.Common().Args {
							if k, ok := a.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.String && strings.Contains(constant.StringVal(k.Value), "%p") {
								bad = true
								c.Fail("address/"+fn.String(), where, fn.String()+" formats an address (%p)")
							}
						}
					}
				case *ssa.Select:
					data := 0
					for i, s := range x.States {
						if s.Dir == types.RecvOnly && selectUsed(x, i) {
							data++
						}
					}
					if data > 1 {
						bad = true
						c.Fail("select/"+fn.String(), where, fn.String()+" takes data from whichever of two channels is ready")
					}
				case *ssa.Range:
					if isMapT(x.X.Type()) {
						c.counts["map iterations"]++
						o.mapRange(fn, x)
					}
				}
			}
		}
		if !bad {
			c.Pass("source/"+fn.String(), fn.String()+" uses no clock, random number, environment or address")
		}
	}
}

func ndSource(n string) string {
	switch {
	case n == "time.Now" || n == "time.Since" || n == "time.Until":
		return "the time of the run"
	case strings.HasPrefix(n, "math/rand") || strings.Contains(n, "math/rand.") || strings.HasPrefix(n, "crypto/rand") || strings.HasPrefix(n, "math/rand/v2"):
		return "random"
	case n == "os.Getpid" || n == "os.Getenv" || n == "os.LookupEnv" || n == "os.Environ" || n == "os.Hostname" || n == "os.Getwd":
		return "taken from the process environment"
	case strings.HasPrefix(n, "runtime.Num") || n == "runtime.GOMAXPROCS":
		return "taken from the machine"
	}
	return ""
}

// selectUsed: the value received by state i is used
func selectUsed(s *ssa.Select, i int) bool {
	k := 2
	for j := 0; j < i; j++ {
		if s.States[j].Dir == types.RecvOnly {
			k++
		}
	}
	for _, r := range *s.Referrers() {
		if x, ok := r.(*ssa.Extract); ok && x.Index == k && x.Referrers() != nil && len(*x.Referrers()) > 0 {
			return true
		}
	}
	return false
}

func (o *orderCheck) iterSeq(fn *ssa.Function, v ssa.Value, where string) {
	key := "map/" + fn.String()
	for _, r := range *v.Referrers() {
		cl, ok := r.(*ssa.Call)
		if !ok {
			if _, ok := r.(*ssa.DebugRef); ok {
				continue
			}
			o.c.Undecided(key, where, "an iterator over a map is used other than by a call")
			return
		}
		n := calleeName(&cl.Call)
		switch {
		case strings.HasPrefix(n, "slices.Sorted"):
			o.c.Pass(key, "the keys are sorted")
		case strings.HasPrefix(n, "slices.Collect"):
			o.list(fn, cl, nil, where, key, 0)
		default:
			o.c.Undecided(key, where, "an iterator over a map is given to "+n)
		}
	}
}

// mapRange decides one loop over a map
func (o *orderCheck) mapRange(fn *ssa.Function, rg *ssa.Range) {
	c := o.c
	where := c.P.pos(rg.Pos())
	if where == "?" {
		for _, ins := range rg.Block().Instrs {
			if w := c.P.pos(ins.Pos()); w != "?" {
				where = w
			}
		}
	}
	key := fmt.Sprintf("map/%s", fn.String())
	var next *ssa.Next
	for _, r := range *rg.Referrers() {
		if n, ok := r.(*ssa.Next); ok {
			next = n
		}
	}
	if next == nil {
		return
	}
	var lp *loop
	for _, l := range c.P.loops(fn).loops {
		if l.header == next.Block() {
			lp = l
		}
	}
	if lp == nil {
		return // leaves in the first iteration: see below
	}
	// values that depend on the entry
	taint := map[ssa.Value]bool{}
	keyV := map[ssa.Value]bool{}
	for _, r := range *next.Referrers() {
		if x, ok := r.(*ssa.Extract); ok && x.Index > 0 {
			taint[x] = true
			if x.Index == 1 {
				keyV[x] = true
			}
		}
	}
	if len(taint) == 0 {
		c.Pass(key, "iterates without looking at the entries")
		return
	}
	cells := map[ssa.Value]bool{} // local variables declared in the loop that hold an entry
	for ch := true; ch; {
		ch = false
		for b := range lp.body {
			for _, ins := range b.Instrs {
				switch x := ins.(type) {
				case *ssa.Store:
					if taint[x.Val] {
						if a := baseAlloc(x.Addr); a != nil && !cells[a] {
							if al, ok := a.(ssa.Instruction); ok && lp.body[al.Block()] {
								cells[a] = true
								ch = true
							}
						}
					}
					continue
				}
				v, ok := ins.(ssa.Value)
				if !ok || taint[v] {
					continue
				}
				if p, ok := v.(*ssa.Phi); ok && p.Block() == lp.header {
					continue // an accumulator, judged below
				}
				for _, op := range ins.Operands(nil) {
					if *op == nil {
						continue
					}
					if taint[*op] || cells[*op] || (baseAlloc(*op) != nil && cells[baseAlloc(*op)]) {
						taint[v] = true
						ch = true
						if u, ok := ins.(*ssa.Convert); ok && keyV[u.X] {
							keyV[v] = true
						}
					}
				}
			}
		}
	}
	bad := func(ins ssa.Instruction, what string) {
		w := c.P.pos(ins.Pos())
		if w == "?" {
			w = where
		}
		c.Fail(key, w, "in "+fn.String()+" the loop over the map "+what+": the result depends on the order of the map")
	}
	unsure := false
	doubt := func(ins ssa.Instruction, what string) {
		unsure = true
		c.Undecided(key, c.P.pos(ins.Pos()), "the loop over a map "+what)
	}
	// a comparison of the entry with what was kept so far: a minimum or a maximum
	extremum := false
	for b := range lp.body {
		for _, ins := range b.Instrs {
			bo, ok := ins.(*ssa.BinOp)
			if !ok || (bo.Op != token.LSS && bo.Op != token.GTR && bo.Op != token.LEQ && bo.Op != token.GEQ) {
				continue
			}
			kept := func(v ssa.Value) bool {
				switch y := v.(type) {
				case *ssa.Phi:
					return y.Block() == lp.header
				case *ssa.UnOp:
					a := baseAlloc(y.X)
					if al, ok := a.(ssa.Instruction); ok && lp.body[al.Block()] {
						return false
					}
					return y.Op == token.MUL
				}
				return false
			}
			if taint[bo.X] && kept(bo.Y) || taint[bo.Y] && kept(bo.X) {
				extremum = true
			}
		}
	}
	n0 := len(c.viol)
	anyTaint := func(ops []ssa.Value) bool {
		for _, v := range ops {
			if taint[v] || (baseAlloc(v) != nil && cells[baseAlloc(v)]) {
				return true
			}
			// variadic arguments
			if s, ok := v.(*ssa.Slice); ok && cells[baseAlloc(s)] {
				return true
			}
		}
		return false
	}
	// equality tests with the entry: a lookup
	guarded := func(b *ssa.BasicBlock) bool {
		for x := b; x != nil && lp.body[x] && x != lp.header; x = x.Idom() {
			d := x.Idom()
			if d == nil || !lp.body[d] {
				break
			}
			i, ok := d.Instrs[len(d.Instrs)-1].(*ssa.If)
			if !ok {
				continue
			}
			neg := false
			cond := i.Cond
			if u, ok := cond.(*ssa.UnOp); ok && u.Op == token.NOT {
				neg = true
				cond = u.X
			}
			if cl, ok := cond.(*ssa.Call); ok && taint[cl] {
				n := calleeName(&cl.Call)
				if (strings.HasSuffix(n, ".Equal") || strings.HasPrefix(n, "slices.Equal") || strings.HasSuffix(n, "EqualFold")) && neg == (x == d.Succs[1]) {
					return true
				}
			}
			if bo, ok := cond.(*ssa.BinOp); ok && (taint[bo.X] || taint[bo.Y]) && !isErrType(bo.X.Type()) && !partOf(bo.X) && !partOf(bo.Y) {
				if (bo.Op == token.EQL && x == d.Succs[0] && !neg) || (bo.Op == token.NEQ && x == d.Succs[1] && !neg) {
					return true
				}
			}
		}
		return false
	}
	for b := range lp.body {
		for _, ins := range b.Instrs {
			switch x := ins.(type) {
			case *ssa.Send:
				if taint[x.X] {
					bad(x, "sends its entries to a channel")
				}
			case *ssa.MapUpdate:
				if al, ok := stripV(x.Map).(ssa.Instruction); ok && lp.body[al.Block()] {
					continue
				}
				if taint[x.Key] && !keyV[x.Key] {
					doubt(x, "stores under a key computed from the entry")
				} else if !taint[x.Key] && taint[x.Value] && !guarded(b) {
					bad(x, "overwrites one map entry with each of its entries")
				}
			case *ssa.Store:
				a := baseAlloc(x.Addr)
				if al, ok := a.(ssa.Instruction); ok && lp.body[al.Block()] {
					continue
				}
				if !taint[x.Val] {
					continue
				}
				if a != nil {
					switch o.accum(fn, lp, a, x.Val, taint) {
					case "ok":
						continue
					case "list":
						o.list(fn, a, lp, where, key, 0)
						continue
					}
				}
				if extremum || guarded(b) || compared(lp, x.Val, nil) {
					continue
				}
				if ia, ok := x.Addr.(*ssa.IndexAddr); ok && taint[ia.Index] {
					continue // an element per key
				}
				bad(x, "keeps the last entry seen")
			case ssa.CallInstruction:
				n := calleeName(x.Common())
				args := x.Common().Args
				if x.Common().IsInvoke() {
					args = append([]ssa.Value{x.Common().Value}, args...)
				}
				if !anyTaint(args) {
					continue
				}
				if orderedCall(n) {
					if guarded(b) {
						continue
					}
					if localWriter(x.Common()) {
						w := args[0]
						if a, ok := stripV(w).(*ssa.Alloc); ok && lp.body[a.Block()] {
							continue
						}
					}
					bad(x, "calls "+n+" for each entry")
					continue
				}
				for _, g := range o.e.callees(x.Common()) {
					if o.e.sum[g] == nil {
						continue
					}
					if o.speaks(g, map[*ssa.Function]bool{}) && !guarded(b) {
						bad(x, "calls "+g.String()+", which writes output, for each entry")
					} else if len(o.e.sum[g].writes) > 0 && !guarded(b) {
						doubt(x, "calls "+g.String()+", which has effects, for each entry")
					}
				}
			case *ssa.Return:
				for _, r := range x.Results {
					if taint[r] && !guarded(b) {
						if isErrType(r.Type()) {
							doubt(x, "returns the error of the first entry that has one")
						} else {
							bad(x, "returns the first entry that is met")
						}
					}
				}
			}
		}
	}
	// leaving the loop
	for b := range lp.body {
		for _, s := range b.Succs {
			if lp.body[s] || b == lp.header {
				continue
			}
			if guardedExit(b, s, taint) || guarded(b) {
				continue
			}
			leave := func(at ssa.Instruction, v ssa.Value) {
				if !dependsOn(v, taint, cells, 4) {
					return
				}
				if opaqueGuard(b, taint) {
					doubt(at, "leaves with an entry chosen by a function")
				} else if isErrType(v.Type()) {
					doubt(at, "leaves with the error of the first entry that has one")
				} else {
					bad(at, "leaves with the first entry that is met")
				}
			}
			inside := true
			for k, q := range s.Preds {
				if !lp.body[q] {
					inside = false
				}
				if q != b {
					continue
				}
				for _, ins := range s.Instrs {
					if p, ok := ins.(*ssa.Phi); ok {
						leave(p, p.Edges[k])
					}
				}
			}
			if r, ok := s.Instrs[len(s.Instrs)-1].(*ssa.Return); ok && inside {
				for _, v := range r.Results {
					if _, phi := v.(*ssa.Phi); !phi {
						leave(r, v)
					}
				}
			}
		}
	}
	// accumulators
	for _, ins := range lp.header.Instrs {
		phi, ok := ins.(*ssa.Phi)
		if !ok {
			continue
		}
		for i, e := range phi.Edges {
			if !lp.body[lp.header.Preds[i]] {
				continue
			}
			if e == phi || !dependsPhi(e, taint, 6) {
				continue
			}
			switch kind := phiKind(lp, phi, e, taint, 0); kind {
			case "ok":
			case "list":
				o.list(fn, phi, lp, where, key, 0)
			case "concat":
				bad(phi, "joins its entries into a string")
			default:
				if i2, ok := e.(ssa.Instruction); ok && guarded(i2.Block()) {
					continue
				}
				if extremum || compared(lp, e, phi) {
					continue
				}
				doubt(phi, "keeps a value computed from its entries")
			}
		}
	}
	if len(c.viol) == n0 && !unsure {
		c.Pass(key, "the loop over a map at "+where+" does not depend on the order")
	}
}

func guardedExit(b, s *ssa.BasicBlock, taint map[ssa.Value]bool) bool {
	i, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	if cl, ok := i.Cond.(*ssa.Call); ok {
		n := calleeName(&cl.Call)
		if f := cl.Call.StaticCallee(); f != nil && len(f.Blocks) == 1 && s == b.Succs[0] { // an extracted test
			if r, ok := f.Blocks[0].Instrs[len(f.Blocks[0].Instrs)-1].(*ssa.Return); ok && len(r.Results) == 1 {
				if bo, ok := r.Results[0].(*ssa.BinOp); ok && bo.Op == token.EQL && !partOf(bo.X) && !partOf(bo.Y) {
					return true
				}
			}
		}
		return strings.HasSuffix(n, ".Equal") || strings.HasPrefix(n, "slices.Equal") || strings.HasSuffix(n, "EqualFold")
	}
	bo, ok := i.Cond.(*ssa.BinOp)
	if !ok || isErrType(bo.X.Type()) || !(taint[bo.X] || taint[bo.Y]) || partOf(bo.X) || partOf(bo.Y) {
		return false
	}
	return bo.Op == token.EQL && s == b.Succs[0] || bo.Op == token.NEQ && s == b.Succs[1]
}

func dependsOn(v ssa.Value, taint, cells map[ssa.Value]bool, depth int) bool {
	if taint[v] || cells[v] {
		return true
	}
	if depth == 0 {
		return false
	}
	switch v.(type) {
	case *ssa.MakeInterface, *ssa.UnOp, *ssa.FieldAddr, *ssa.Field, *ssa.Convert, *ssa.ChangeType, *ssa.IndexAddr, *ssa.Slice:
		for _, op := range v.(ssa.Instruction).Operands(nil) {
			if *op != nil && dependsOn(*op, taint, cells, depth-1) {
				return true
			}
		}
	}
	return false
}

func dependsPhi(v ssa.Value, taint map[ssa.Value]bool, depth int) bool {
	if taint[v] {
		return true
	}
	if p, ok := v.(*ssa.Phi); ok && depth > 0 {
		for _, e := range p.Edges {
			if dependsPhi(e, taint, depth-1) {
				return true
			}
		}
	}
	return false
}

// phiKind: how the accumulator acc becomes e
func phiKind(lp *loop, acc ssa.Value, e ssa.Value, taint map[ssa.Value]bool, depth int) string {
	if e == acc || depth > 6 {
		return "ok"
	}
	switch x := e.(type) {
	case *ssa.Const:
		return "ok"
	case *ssa.Phi:
		if x == acc {
			return "ok"
		}
		res := "ok"
		for _, g := range x.Edges {
			if g == x {
				continue
			}
			if k := phiKind(lp, acc, g, taint, depth+1); k != "ok" {
				res = k
			}
		}
		return res
	case *ssa.BinOp:
		if basicString(x.Type()) {
			return "concat"
		}
		switch x.Op {
		case token.ADD, token.MUL, token.OR, token.AND, token.XOR:
			if x.X == acc || x.Y == acc {
				return "ok"
			}
			if p, ok := x.X.(*ssa.Phi); ok && p != acc {
				return phiKind(lp, acc, p, taint, depth+1)
			}
		}
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok {
			switch b.Name() {
			case "append":
				return "list"
			case "min", "max":
				return "ok"
			}
		}
		if n := calleeName(&x.Call); n == "math.Max" || n == "math.Min" {
			return "ok"
		} else if n == "slices.Insert" || strings.HasPrefix(n, "slices.Insert[") {
			return "list"
		}
	}
	if !taint[e] {
		return "ok"
	}
	return "?"
}

func basicString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// compared: the value is chosen by comparing it (a minimum or maximum)
func compared(lp *loop, v ssa.Value, acc ssa.Value) bool {
	if p, ok := v.(*ssa.Phi); ok && p != acc {
		for _, e := range p.Edges {
			if e != acc && compared(lp, e, acc) {
				return true
			}
		}
	}
	if v.Referrers() == nil {
		return false
	}
	for _, r := range *v.Referrers() {
		if b, ok := r.(*ssa.BinOp); ok && lp.body[b.Block()] {
			switch b.Op {
			case token.LSS, token.GTR, token.LEQ, token.GEQ:
				return true
			}
		}
	}
	return false
}

// accum: the same for an accumulator kept in a variable
func (o *orderCheck) accum(fn *ssa.Function, lp *loop, cell ssa.Value, v ssa.Value, taint map[ssa.Value]bool) string {
	isLoad := func(x ssa.Value) bool {
		u, ok := x.(*ssa.UnOp)
		return ok && u.Op == token.MUL && u.X == cell
	}
	switch x := v.(type) {
	case *ssa.BinOp:
		if (isLoad(x.X) || isLoad(x.Y)) && !basicString(x.Type()) {
			return "ok"
		}
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" && isLoad(x.Call.Args[0]) {
			return "list"
		}
	}
	return "?"
}

// list: the entries of a map in a list, in the order of the map: sorted before it is used
func (o *orderCheck) list(fn *ssa.Function, v ssa.Value, lp *loop, where, key string, depth int) {
	c := o.c
	type use struct {
		ins  ssa.Instruction
		sort bool
	}
	var uses []use
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value)
	walk = func(v ssa.Value) {
		if seen[v] || v.Referrers() == nil {
			return
		}
		seen[v] = true
		for _, r := range *v.Referrers() {
			if lp != nil && lp.body[r.Block()] {
				if p, ok := r.(*ssa.Phi); ok && p.Block() != lp.header {
					continue
				}
				continue
			}
			switch x := r.(type) {
			case *ssa.DebugRef:
			case *ssa.Store:
				if x.Addr == v {
					continue // the variable is set
				}
				if a, ok := x.Addr.(*ssa.Alloc); ok {
					walk(a)
				} else {
					uses = append(uses, use{r, false})
				}
			case *ssa.MakeClosure:
				// the comparison of the sort
			case *ssa.MakeInterface:
				walk(x)
			case *ssa.ChangeType:
				walk(x)
			case *ssa.UnOp:
				walk(x)
			case *ssa.Phi:
				walk(x)
			case *ssa.Slice:
				walk(x)
			case *ssa.Call:
				if b, ok := x.Call.Value.(*ssa.Builtin); ok && (b.Name() == "len" || b.Name() == "cap") {
					continue
				}
				uses = append(uses, use{r, sortCall(calleeName(&x.Call))})
			default:
				uses = append(uses, use{r, false})
			}
		}
	}
	walk(v)
	var sorts []*ssa.Call
	for _, u := range uses {
		if u.sort {
			sorts = append(sorts, u.ins.(*ssa.Call))
		}
	}
	before := func(a, b ssa.Instruction) bool {
		if a.Block() == b.Block() {
			for _, i := range a.Block().Instrs {
				if i == a {
					return true
				}
				if i == b {
					return false
				}
			}
		}
		return a.Block().Dominates(b.Block())
	}
	for _, u := range uses {
		if u.sort {
			continue
		}
		ok := false
		for _, s := range sorts {
			if before(s, u.ins) {
				ok = true
			}
		}
		if ok {
			continue
		}
		if _, ret := u.ins.(*ssa.Return); ret && depth < 2 && len(o.calls[fn]) > 0 {
			for _, cl := range o.calls[fn] {
				if fn.Signature.Results().Len() == 1 {
					o.list(cl.Parent(), cl, nil, c.P.pos(cl.Pos()), key+" <- "+cl.Parent().String(), depth+1)
				}
			}
			continue
		}
		w := c.P.pos(u.ins.Pos())
		if w == "?" {
			w = where
		}
		c.Fail(key, w, "in "+fn.String()+" a list of the entries of a map, in the order of the map, is used without being sorted first")
		return
	}
	for _, s := range sorts {
		switch totalOrder(s) {
		case 0:
			c.Fail(key, c.P.pos(s.Pos()), "in "+fn.String()+" a list of the entries of a map is sorted by only part of each entry: equal entries stay in the order of the map")
			return
		case -1:
			c.Undecided(key, c.P.pos(s.Pos()), "the order used to sort the entries of a map is not recognised")
			return
		}
	}
	c.Pass(key, "the list of map entries is sorted before it is used")
}

// totalOrder: the comparison of a sort distinguishes all elements: 1 yes, 0 no, -1 unknown
func totalOrder(s *ssa.Call) int {
	n := calleeName(&s.Call)
	if !strings.HasPrefix(n, "sort.Slice") && !strings.Contains(n, "SortFunc") && !strings.Contains(n, "SortStableFunc") && n != "sort.Sort" && n != "sort.Stable" {
		return 1 // sort.Ints, sort.Strings, slices.Sort
	}
	if len(s.Call.Args) < 2 {
		return -1
	}
	var fn *ssa.Function
	switch x := stripV(s.Call.Args[1]).(type) {
	case *ssa.Function:
		fn = x
	case *ssa.MakeClosure:
		fn, _ = x.Fn.(*ssa.Function)
	}
	if fn == nil {
		return -1
	}
	if strings.HasPrefix(fn.String(), "cmp.Compare") || fn.String() == "strings.Compare" {
		return 1
	}
	res := -1
	for _, b := range fn.Blocks {
		r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok || len(r.Results) != 1 {
			continue
		}
		var x, y ssa.Value
		switch v := r.Results[0].(type) {
		case *ssa.BinOp:
			x, y = v.X, v.Y
		case *ssa.Call:
			if m := calleeName(&v.Call); (strings.HasPrefix(m, "cmp.Compare") || m == "strings.Compare") && len(v.Call.Args) == 2 {
				x, y = v.Call.Args[0], v.Call.Args[1]
			}
		}
		if x == nil {
			return -1
		}
		if k := wholeElem(x) && wholeElem(y); k && res != 0 {
			res = 1
		} else if lossy(x) && lossy(y) && len(fn.Blocks) == 1 {
			res = 0
		} else {
			return -1
		}
	}
	return res
}

// wholeElem: an element of the list as a whole
func wholeElem(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Parameter:
		return true
	case *ssa.UnOp:
		_, ok := x.X.(*ssa.IndexAddr)
		return ok
	case *ssa.Convert:
		f, ok1 := x.X.Type().Underlying().(*types.Basic)
		t, ok2 := x.Type().Underlying().(*types.Basic)
		return ok1 && ok2 && types.SizesFor("gc", "amd64").Sizeof(t) >= types.SizesFor("gc", "amd64").Sizeof(f) && wholeElem(x.X)
	}
	return false
}

// lossy: only part of an element
func lossy(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.BinOp:
		switch x.Op {
		case token.QUO, token.REM, token.AND, token.SHR:
			return true
		}
	case *ssa.Call:
		b, ok := x.Call.Value.(*ssa.Builtin)
		return ok && b.Name() == "len"
	}
	return false
}

// partOf: part of a string
func partOf(v ssa.Value) bool {
	_, ok := v.(*ssa.Slice)
	return ok || lossy(v)
}

// opaqueGuard: the branch is taken on the result of a function of the repository
func opaqueGuard(b *ssa.BasicBlock, taint map[ssa.Value]bool) bool {
	i, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	cond := i.Cond
	if u, ok := cond.(*ssa.UnOp); ok && u.Op == token.NOT {
		cond = u.X
	}
	cl, ok := cond.(*ssa.Call)
	if !ok || !taint[cl] {
		return false
	}
	n := calleeName(&cl.Call)
	return !strings.HasPrefix(n, "strings.") && !strings.HasPrefix(n, "bytes.") && !strings.HasPrefix(n, "slices.")
}
