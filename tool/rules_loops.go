package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C24: every way round every loop makes progress.

func init() {
	register(&Check{ID: "C24",
		Rule: "Every path round every loop of the repository (from its header back to it) either takes the next element of a range, moves a variable that the loop's exit tests compare, towards its bound, receives from a channel, or consumes input by a read whose failure leaves the loop; no path leaves all of that unchanged, and no read that fails at the end of input lets the loop go round again. Recursive functions are listed as undecided.",
		Run:  runC24})
}

type loopCheck struct {
	c    *Ctx
	e    *effects
	memo map[*ssa.Function]int
}

// consumes: the call takes at least a byte from a reader, or fails: 1 yes, 0 it can succeed at the end of input without, -1 not a read
func (l *loopCheck) consumes(c *ssa.CallCommon, depth int) int {
	n := calleeName(c)
	switch {
	case strings.HasSuffix(n, ").ReadByte") || strings.HasSuffix(n, ").ReadRune") || strings.HasSuffix(n, ").ReadString") || strings.HasSuffix(n, ").ReadBytes") || strings.HasSuffix(n, ").ReadLine"):
		return 1
	case n == "io.ReadFull" || n == "io.ReadAtLeast" || strings.HasSuffix(n, ").Read"):
		arg := c.Args[len(c.Args)-1]
		if n == "io.ReadFull" || n == "io.ReadAtLeast" {
			arg = c.Args[1]
		}
		if s, ok := arg.(*ssa.Slice); ok {
			if p, ok := s.X.Type().Underlying().(*types.Pointer); ok {
				if a, ok := p.Elem().Underlying().(*types.Array); ok && a.Len() > 0 {
					return 1
				}
			}
		}
		if m, ok := arg.(*ssa.MakeSlice); ok {
			if k, ok := m.Len.(*ssa.Const); ok && constant.Sign(k.Value) > 0 {
				return 1
			}
		}
		return -1
	case n == "encoding/binary.Read" || n == "encoding/binary.ReadUvarint" || n == "(*encoding/json.Decoder).Decode" || n == "(*encoding/json.Decoder).Token" || n == "(*encoding/csv.Reader).Read":
		return 1
	}
	f := c.StaticCallee()
	if f == nil || l.e.sum[f] == nil || len(f.Blocks) == 0 || depth > 6 || !isErrT(f) {
		return -1
	}
	if v, ok := l.memo[f]; ok {
		return v
	}
	l.memo[f] = -1
	res := -1
	stuck := false
	isRead := func(i ssa.Instruction) bool {
		cl, ok := i.(*ssa.Call)
		if !ok {
			return false
		}
		switch l.consumes(&cl.Call, depth+1) {
		case 1:
			return true
		case 0:
			stuck = true
			return true
		}
		return false
	}
	if avoid(f, nil, isRead, nil) == nil {
		res = 1
		if stuck {
			res = 0
		}
		// the end of input is reported
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				if !isRead(ins) {
					continue
				}
				ev, isErr := errOf(ins.(*ssa.Call))
				if !isErr || ev == nil {
					res = -1
					continue
				}
				if l.dropped(f, ins, ev) {
					res = 0
				}
			}
		}
	}
	l.memo[f] = res
	return res
}

// dropped: with the error v not nil, the function can return a nil error
func (l *loopCheck) dropped(f *ssa.Function, at ssa.Instruction, v ssa.Value) bool {
	type edge struct{ a, b *ssa.BasicBlock }
	seen := map[edge]bool{}
	var walk func(from, b *ssa.BasicBlock, after ssa.Instruction, env map[ssa.Value]bool) bool
	walk = func(from, b *ssa.BasicBlock, after ssa.Instruction, env map[ssa.Value]bool) bool {
		if seen[edge{from, b}] {
			return false
		}
		seen[edge{from, b}] = true
		cur := map[ssa.Value]bool{}
		for k := range env {
			cur[k] = true
		}
		isNil := map[ssa.Value]bool{}
		for _, ins := range b.Instrs {
			if after != nil {
				if ins == after {
					after = nil
				}
				continue
			}
			switch x := ins.(type) {
			case *ssa.Phi:
				for i, p := range b.Preds {
					if p == from {
						cur[x] = env[x.Edges[i]]
						if c, ok := x.Edges[i].(*ssa.Const); ok && c.IsNil() {
							isNil[x] = true
						}
					}
				}
			case *ssa.Call:
				if ins == at {
					return false
				}
			case *ssa.Return:
				r := x.Results[len(x.Results)-1]
				c, ok := r.(*ssa.Const)
				return ok && c.IsNil() || isNil[r]
			}
		}
		next := b.Succs
		if i, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
			if w, s, ok := nilTest(i); ok && cur[w] {
				next = b.Succs[s : s+1]
			} else if bo, ok := i.Cond.(*ssa.BinOp); ok && (cur[bo.X] || cur[bo.Y]) && eofValue(bo.X, bo.Y) {
				if bo.Op == token.EQL { // at the end of input
					next = b.Succs[:1]
				} else {
					next = b.Succs[1:]
				}
			} else if cl, ok := i.Cond.(*ssa.Call); ok && calleeName(&cl.Call) == "errors.Is" && cur[cl.Call.Args[0]] && eofValue(cl.Call.Args[1], nil) {
				next = b.Succs[:1]
			}
		}
		for _, s := range next {
			if walk(b, s, nil, cur) {
				return true
			}
		}
		return false
	}
	return walk(nil, at.Block(), at, map[ssa.Value]bool{v: true})
}

func eofValue(vs ...ssa.Value) bool {
	for _, v := range vs {
		if u, ok := v.(*ssa.UnOp); ok {
			if g, ok := u.X.(*ssa.Global); ok && g.String() == "io.EOF" {
				return true
			}
		}
	}
	return false
}

type wayRound struct {
	blocks []*ssa.BasicBlock
	why    string
}

func runC24(c *Ctx) {
	l := &loopCheck{c: c, e: newEffects(c.P), memo: map[*ssa.Function]int{}}
	for _, fn := range c.P.fns {
		if fn.Synthetic != "" && fn.Name() != "init" || len(fn.Blocks) == 0 {
			continue
		}
		c.funcs[fn.String()] = true
		for i, lp := range c.P.loops(fn).loops {
			c.counts["loops"]++
			l.loop(fn, lp, fmt.Sprintf("%s/loop %d", fn.String(), i))
		}
	}
	// recursion
	for _, fn := range c.P.fns {
		if fn.Synthetic != "" {
			continue
		}
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				if cl, ok := ins.(ssa.CallInstruction); ok && cl.Common().StaticCallee() == fn {
					c.Undecided("recursion/"+fn.String(), c.P.pos(ins.Pos()), "the function calls itself")
				}
			}
		}
	}
}

func (l *loopCheck) loop(fn *ssa.Function, lp *loop, key string) {
	c := l.c
	where := ""
	for b := range lp.body {
		for _, ins := range b.Instrs {
			if w := c.P.pos(ins.Pos()); w != "?" && (where == "" || len(w) < len(where) || len(w) == len(where) && w < where) {
				where = w
			}
		}
	}
	// variables that the exit tests look at
	slice := map[ssa.Value]bool{}
	var back func(v ssa.Value)
	back = func(v ssa.Value) {
		ins, ok := v.(ssa.Instruction)
		if !ok || slice[v] || !lp.body[ins.Block()] {
			return
		}
		slice[v] = true
		for _, op := range ins.Operands(nil) {
			if *op != nil {
				back(*op)
			}
		}
	}
	exits := 0
	for b := range lp.body {
		switch t := b.Instrs[len(b.Instrs)-1].(type) {
		case *ssa.If:
			out := false
			for _, s := range b.Succs {
				if !lp.body[s] {
					out = true
				}
			}
			if out && !alwaysTrue(t.Cond, lp.body[b.Succs[0]]) {
				exits++
			}
			back(t.Cond)
		case *ssa.Return, *ssa.Panic:
			exits++
		}
	}
	if exits == 0 && l.throws(lp) {
		c.Undecided(key, where, "the loop is left by a panic or exit of a function that it calls, if at all")
		return
	}
	if exits == 0 {
		c.Fail(key, where, "the loop in "+fn.String()+" has no way out")
		return
	}
	paths, cut := 0, false
	var bad, doubt string
	var badAt string
	type env = struct {
		val map[ssa.Value]ssa.Value
		non map[ssa.Value]bool // errors that are not nil on this path
		is0 map[ssa.Value]bool // errors that are nil
		end *ssa.Call          // the read that fails at the end of the input on this path
	}
	var walk func(from, b *ssa.BasicBlock, seen map[*ssa.BasicBlock]bool, e env, prog, impure bool)
	res := func(e env, v ssa.Value) ssa.Value {
		for i := 0; i < 20; i++ {
			w, ok := e.val[v]
			if !ok || w == v {
				return v
			}
			v = w
		}
		return v
	}
	finish := func(latch *ssa.BasicBlock, e env, prog, impure bool) {
		paths++
		if prog {
			return
		}
		changed, away, zero := false, "", false
		for _, ins := range lp.header.Instrs {
			phi, ok := ins.(*ssa.Phi)
			if !ok {
				continue
			}
			var v ssa.Value
			for i, p := range lp.header.Preds {
				if p == latch {
					v = res(e, phi.Edges[i])
				}
			}
			if v == nil || v == phi || !slice[phi] {
				continue
			}
			// an error that is not nil: the header leaves
			if isErrType(phi.Type()) {
				if i, ok := lp.header.Instrs[len(lp.header.Instrs)-1].(*ssa.If); ok {
					if w, s, ok := nilTest(i); ok && w == phi && !lp.body[lp.header.Succs[s]] && e.non[v] {
						return
					}
				}
				if k, ok := v.(*ssa.Const); ok && k.IsNil() {
					continue // no error: nothing moved
				}
			}
			if d := step(v, phi, e.val); d != 0 && len(lp.latch) == 1 {
				if dir := direction(lp, phi); dir != 0 && dir != d {
					away = "moves a variable of the loop's test away from its bound"
					continue
				}
			}
			if freeStep(v, phi, lp) {
				zero = true
				continue
			}
			changed = true
		}
		switch {
		case !changed && away == "" && zero && !impure:
			bad = "advances by a value of the input that may be 0: the loop never ends"
			for _, ins := range latch.Instrs {
				if w := c.P.pos(ins.Pos()); w != "?" {
					badAt = w
				}
			}
		case changed && (away == "" || exits > 1):
		case away != "":
			bad, badAt = away, c.P.pos(latch.Instrs[len(latch.Instrs)-1].Pos())
		case e.end != nil && l.rest(lp, e.end):
			doubt = "a way round on which a read fails has no recognised progress"
		case e.end == nil && l.failedRaw(e.non, lp):
			// judged on the way of the failing read itself
		case e.end == nil && failed(e.non, l, lp) && l.unsure(e.non, lp):
			doubt = "a way round on which a read fails has no recognised progress"
		case failed(e.non, l, lp) || e.end != nil:
			bad = "is taken when a read fails: at the end of the input the loop never ends"
			for _, ins := range latch.Instrs {
				if w := c.P.pos(ins.Pos()); w != "?" {
					badAt = w
				}
			}
		case impure:
			doubt = "a way round has no recognised progress"
		default:
			bad = "leaves everything that the loop's tests look at unchanged: the loop never ends"
			for _, ins := range latch.Instrs {
				if w := c.P.pos(ins.Pos()); w != "?" {
					badAt = w
				}
			}
		}
	}
	walk = func(from, b *ssa.BasicBlock, seen map[*ssa.BasicBlock]bool, e env, prog, impure bool) {
		if paths > 3000 {
			cut = true
			return
		}
		s2 := map[*ssa.BasicBlock]bool{b: true}
		for k := range seen {
			s2[k] = true
		}
		e2 := env{map[ssa.Value]ssa.Value{}, map[ssa.Value]bool{}, map[ssa.Value]bool{}, e.end}
		for k, v := range e.val {
			e2.val[k] = v
		}
		for k := range e.non {
			e2.non[k] = true
		}
		for k := range e.is0 {
			e2.is0[k] = true
		}
		var reads []ssa.Value
		var raw []*ssa.Call
		before := prog
		for _, ins := range b.Instrs {
			switch x := ins.(type) {
			case *ssa.Phi:
				if b == lp.header {
					continue
				}
				for i, p := range b.Preds {
					if p == from {
						e2.val[x] = res(e, x.Edges[i])
					}
				}
			case *ssa.Next:
				prog = true
			case *ssa.Send, *ssa.Select:
				impure = true
			case *ssa.Store, *ssa.MapUpdate:
				impure = true
			case *ssa.UnOp:
				if x.Op == token.ARROW {
					prog = true
				}
			case *ssa.Call:
				n := calleeName(&x.Call)
				if n == "(*bufio.Scanner).Scan" {
					prog = true
					continue
				}
				if l.raw(x) {
					raw = append(raw, x)
				}
				switch l.consumes(&x.Call, 0) {
				case 1, 0:
					if ev, isErr := errOf(x); isErr && ev != nil {
						reads = append(reads, ev)
						if l.consumes(&x.Call, 0) == 0 {
							bad = "calls " + n + ", which can succeed at the end of the input without reading anything"
							badAt = c.P.pos(x.Pos())
						}
					} else {
						impure = true
					}
				default:
					if _, ok := x.Call.Value.(*ssa.Builtin); !ok && !l.pure(x) {
						impure = true
					}
				}
			}
		}
		for _, ev := range reads {
			// progress unless the error turns out not to be nil
			e2.val[ssa.Value(ev)] = ev
			prog = true
		}
		last := b.Instrs[len(b.Instrs)-1]
		if e.end == nil && len(raw) == 1 {
			// the same way with the read failing at the end of the input
			f := env{map[ssa.Value]ssa.Value{}, map[ssa.Value]bool{}, map[ssa.Value]bool{}, raw[0]}
			for k, v := range e2.val {
				f.val[k] = v
			}
			for k := range e2.non {
				f.non[k] = true
			}
			for k := range e2.is0 {
				f.is0[k] = true
			}
			if ev, ok := errOf(raw[0]); ok && ev != nil {
				f.non[ev] = true
			}
			l.succs(b, lp, f, func(s *ssa.BasicBlock) {
				if s == lp.header {
					finish(b, f, before, impure)
				} else if !s2[s] {
					walk(b, s, s2, f, before, impure)
				}
			})
		}
		if e.end != nil {
			l.succs(b, lp, e2, func(s *ssa.BasicBlock) {
				if s == lp.header {
					finish(b, e2, prog, impure)
				} else if !s2[s] {
					walk(b, s, s2, e2, prog, impure)
				}
			})
			return
		}
		for k, s := range b.Succs {
			if !lp.body[s] {
				continue
			}
			e3, p3 := e2, prog
			if i, ok := last.(*ssa.If); ok {
				if v, si, ok := nilTest(i); ok {
					v = res(e2, v)
					if e2.non[v] && k != si || e2.is0[v] && k == si {
						continue
					}
					e3 = env{e2.val, map[ssa.Value]bool{}, map[ssa.Value]bool{}, e2.end}
					for q := range e2.non {
						e3.non[q] = true
					}
					for q := range e2.is0 {
						e3.is0[q] = true
					}
					if k == si {
						e3.non[v] = true
						// a failed read is no progress
						if ex, ok := v.(ssa.Instruction); ok && lp.body[ex.Block()] && l.isReadErr(v) {
							p3 = false
						}
					} else {
						e3.is0[v] = true
					}
				}
			}
			if s == lp.header {
				finish(b, e3, p3, impure)
				continue
			}
			if !s2[s] {
				walk(b, s, s2, e3, p3, impure)
			}
		}
	}
	walk(nil, lp.header, map[*ssa.BasicBlock]bool{}, env{map[ssa.Value]ssa.Value{}, map[ssa.Value]bool{}, map[ssa.Value]bool{}, nil}, false, false)
	c.counts["ways round"] += paths
	switch {
	case bad != "":
		if badAt == "" || badAt == "?" {
			badAt = where
		}
		c.Fail(key, badAt, "a way round the loop at "+where+" in "+fn.String()+" "+bad)
	case doubt != "" || cut:
		if cut {
			doubt = "too many ways round"
		}
		c.Undecided(key, where, doubt)
	default:
		c.Pass(key, fmt.Sprintf("%d ways round the loop at %s all make progress", paths, where))
	}
}

// isReadErr: the error of a call that reads
func (l *loopCheck) isReadErr(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Extract:
		if cl, ok := x.Tuple.(*ssa.Call); ok {
			return l.consumes(&cl.Call, 0) >= 0
		}
	case *ssa.Call:
		return l.consumes(&x.Call, 0) >= 0
	}
	return false
}

// pure: the call changes nothing a loop test could look at
func (l *loopCheck) pure(x *ssa.Call) bool {
	n := calleeName(&x.Call)
	for _, s := range []string{"fmt.", "strings.", "errors.", "strconv.", "slices.", "bytes.", "math.", "unicode", "regexp.", "(*regexp.", "encoding/hex."} {
		if strings.HasPrefix(n, s) && !strings.HasPrefix(n, "fmt.F") {
			return true
		}
	}
	for _, f := range l.e.callees(&x.Call) {
		s := l.e.sum[f]
		if s == nil || len(s.writes) > 0 {
			return false
		}
	}
	return len(l.e.callees(&x.Call)) > 0
}

// step: v is phi plus something positive (1) or negative (-1); 0 unknown
func step(v ssa.Value, phi *ssa.Phi, val map[ssa.Value]ssa.Value) int {
	b, ok := v.(*ssa.BinOp)
	if !ok || (b.Op != token.ADD && b.Op != token.SUB) {
		return 0
	}
	k, ok := b.Y.(*ssa.Const)
	if !ok || b.X != ssa.Value(phi) || k.Value == nil || k.Value.Kind() != constant.Int {
		return 0
	}
	s := constant.Sign(k.Value)
	if b.Op == token.SUB {
		s = -s
	}
	return s
}

// direction: the way phi has to go for the header's test to end the loop; 0 unknown
func direction(lp *loop, phi *ssa.Phi) int {
	i, ok := lp.header.Instrs[len(lp.header.Instrs)-1].(*ssa.If)
	if !ok || !lp.body[lp.header.Succs[0]] || lp.body[lp.header.Succs[1]] {
		return 0
	}
	b, ok := i.Cond.(*ssa.BinOp)
	if !ok {
		return 0
	}
	outer := func(v ssa.Value) bool {
		ins, ok := v.(ssa.Instruction)
		return !ok || !lp.body[ins.Block()]
	}
	up := 0
	switch b.Op {
	case token.LSS, token.LEQ:
		up = 1
	case token.GTR, token.GEQ:
		up = -1
	}
	if b.X == ssa.Value(phi) && outer(b.Y) {
		return up
	}
	if b.Y == ssa.Value(phi) && outer(b.X) {
		return -up
	}
	return 0
}

// failed: one of the errors is that of a read in the loop
func failed(non map[ssa.Value]bool, l *loopCheck, lp *loop) bool {
	for v := range non {
		if ins, ok := v.(ssa.Instruction); ok && lp.body[ins.Block()] && l.isReadErr(v) {
			return true
		}
	}
	return false
}

// alwaysTrue: an unsigned value compared with 0 so that the test never leaves the loop (stay: the loop is the true branch)
func alwaysTrue(v ssa.Value, stay bool) bool {
	b, ok := v.(*ssa.BinOp)
	if !ok {
		return false
	}
	t, ok := b.X.Type().Underlying().(*types.Basic)
	k, isC := b.Y.(*ssa.Const)
	if !ok || !isC || t.Info()&types.IsUnsigned == 0 || k.Value == nil || constant.Sign(k.Value) != 0 {
		return false
	}
	return b.Op == token.GEQ && stay || b.Op == token.LSS && !stay
}

// freeStep: v is phi moved by a byte of the data (or some bits of it) that nothing in the function tests
func freeStep(v ssa.Value, phi *ssa.Phi, lp *loop) bool {
	var d ssa.Value
	switch x := v.(type) {
	case *ssa.BinOp:
		if x.Op == token.ADD && x.X == ssa.Value(phi) {
			d = x.Y
		} else if x.Op == token.ADD && x.Y == ssa.Value(phi) {
			d = x.X
		}
	case *ssa.Slice:
		if x.X == ssa.Value(phi) && x.High == nil {
			d = x.Low
		}
	}
	if d == nil {
		return false
	}
	for i := 0; i < 10; i++ {
		if refs := d.Referrers(); refs != nil {
			for _, r := range *refs {
				if b, ok := r.(*ssa.BinOp); ok && b.Op != token.ADD && b.Op != token.AND {
					return false
				}
				if _, ok := r.(*ssa.Phi); ok {
					return false
				}
			}
		}
		switch x := d.(type) {
		case *ssa.Convert:
			d = x.X
		case *ssa.BinOp:
			if _, ok := x.Y.(*ssa.Const); !ok || x.Op != token.AND {
				return false
			}
			d = x.X
		case *ssa.UnOp:
			ia, ok := x.X.(*ssa.IndexAddr)
			if x.Op != token.MUL || !ok {
				return false
			}
			t, ok := x.Type().Underlying().(*types.Basic)
			if !ok || t.Kind() != types.Uint8 {
				return false
			}
			// the same element is not tested elsewhere
			for _, b := range ia.Parent().Blocks {
				for _, ins := range b.Instrs {
					if o, ok := ins.(*ssa.IndexAddr); ok && o != ia && lp.body[b] {
						return false
					}
				}
			}
			switch a := ia.X.(type) {
			case *ssa.Parameter:
				return true
			case *ssa.Phi:
				return a == phi
			}
			return false
		default:
			return false
		}
	}
	return false
}

// asks: a test of the loop asks a reader how much is left, or a function about the error
func asks(lp *loop, c *ssa.Call) bool {
	for b := range lp.body {
		i, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if ok && calls(i.Cond, lp, c, map[ssa.Value]bool{}) {
			return true
		}
	}
	return false
}

// raw: a call of a library reader, which fails with io.EOF and empty results at the end of the input
func (l *loopCheck) raw(c *ssa.Call) bool {
	f := c.Call.StaticCallee()
	return l.consumes(&c.Call, 0) == 1 && (c.Call.IsInvoke() || f != nil && l.e.sum[f] == nil)
}

func callOf(v ssa.Value) *ssa.Call {
	switch x := v.(type) {
	case *ssa.Extract:
		c, _ := x.Tuple.(*ssa.Call)
		return c
	case *ssa.Call:
		return x
	}
	return nil
}

func (l *loopCheck) failedRaw(non map[ssa.Value]bool, lp *loop) bool {
	for v := range non {
		if c := callOf(v); c != nil && lp.body[c.Block()] && l.raw(c) {
			return true
		}
	}
	return false
}

// throws: the loop calls a function of the repository that can panic or exit on its own account
func (l *loopCheck) throws(lp *loop) bool {
	for b := range lp.body {
		for _, ins := range b.Instrs {
			if cl, ok := ins.(*ssa.Call); ok {
				for _, f := range l.e.callees(&cl.Call) {
					if l.thrower(f, 3) {
						return true
					}
				}
				if n := calleeName(&cl.Call); n == "os.Exit" || n == "runtime.Goexit" || strings.HasPrefix(n, "log.Fatal") || strings.HasPrefix(n, "log.Panic") {
					return true
				}
			}
		}
	}
	return false
}

// thrower: f panics or exits when an error that it is given is not nil
func (l *loopCheck) thrower(f *ssa.Function, depth int) bool {
	err := false
	for _, p := range f.Params {
		if isErrType(p.Type()) {
			err = true
		}
	}
	if !err && len(f.FreeVars) == 0 || depth == 0 {
		return false
	}
	for _, b := range f.Blocks {
		for _, ins := range b.Instrs {
			switch x := ins.(type) {
			case *ssa.Panic:
				return true
			case *ssa.Call:
				if n := calleeName(&x.Call); n == "os.Exit" || n == "runtime.Goexit" || strings.HasPrefix(n, "log.Fatal") || strings.HasPrefix(n, "log.Panic") {
					return true
				}
				for _, g := range l.e.callees(&x.Call) {
					if l.thrower(g, depth-1) {
						return true
					}
				}
			}
		}
	}
	return false
}

// unsure: what the failing read of a function of the repository leaves behind may end the loop
func (l *loopCheck) unsure(non map[ssa.Value]bool, lp *loop) bool {
	if asks(lp, nil) || l.throws(lp) {
		return true
	}
	for v := range non {
		c := callOf(v)
		if c == nil || !lp.body[c.Block()] || l.consumes(&c.Call, 0) < 0 {
			continue
		}
		if kept(v) {
			return true
		}
		for b := range lp.body {
			i, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
			if ok && (!lp.body[b.Succs[0]] || !lp.body[b.Succs[1]]) && fromRead(i.Cond, c, lp, map[ssa.Value]bool{}) {
				return true
			}
		}
	}
	return false
}

// kept: the error is stored
func kept(v ssa.Value) bool {
	if v.Referrers() == nil {
		return false
	}
	for _, r := range *v.Referrers() {
		if st, ok := r.(*ssa.Store); ok && st.Val == v {
			return true
		}
	}
	return false
}

func calls(v ssa.Value, lp *loop, c *ssa.Call, seen map[ssa.Value]bool) bool {
	ins, ok := v.(ssa.Instruction)
	if !ok || seen[v] || !lp.body[ins.Block()] {
		return false
	}
	seen[v] = true
	if x, ok := v.(*ssa.Call); ok && x != c {
		n := calleeName(&x.Call)
		if _, ok := x.Call.Value.(*ssa.Builtin); !ok && n != "errors.Is" && !strings.HasPrefix(n, "strings.") && !strings.HasPrefix(n, "bytes.") {
			if _, isErr := errOf(x); !isErr {
				return true
			}
		}
	}
	for _, op := range ins.Operands(nil) {
		if *op != nil && calls(*op, lp, c, seen) {
			return true
		}
	}
	return false
}

// rest: tests of the loop look at the bytes that a read which fails did read
func (l *loopCheck) rest(lp *loop, c *ssa.Call) bool {
	if asks(lp, c) || l.throws(lp) {
		return true
	}
	if ev, ok := errOf(c); ok && ev != nil && kept(ev) {
		return true
	}
	for b := range lp.body {
		i, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		if fromRead(i.Cond, c, lp, map[ssa.Value]bool{}) {
			if _, ok := l.atEnd(i.Cond, c, map[ssa.Value]ssa.Value{}, 0); !ok {
				return true
			}
		}
	}
	// the buffer that it fills
	if n := calleeName(&c.Call); strings.HasSuffix(n, ").Read") || strings.HasPrefix(n, "io.Read") || strings.Contains(n, "encoding/") {
		for b := range lp.body {
			i, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
			if ok && loads(i.Cond, lp, map[ssa.Value]bool{}) {
				return true
			}
		}
	}
	return false
}

func loads(v ssa.Value, lp *loop, seen map[ssa.Value]bool) bool {
	ins, ok := v.(ssa.Instruction)
	if !ok || seen[v] || !lp.body[ins.Block()] {
		return false
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.UnOp:
		if _, g := x.X.(*ssa.Global); x.Op == token.MUL && !g {
			return true
		}
	case *ssa.Call:
		if _, ok := x.Call.Value.(*ssa.Builtin); !ok && calleeName(&x.Call) != "errors.Is" && !isErrT2(x) {
			return true
		}
	}
	for _, op := range ins.Operands(nil) {
		if *op != nil && loads(*op, lp, seen) {
			return true
		}
	}
	return false
}

func isErrT2(x *ssa.Call) bool {
	_, ok := errOf(x)
	return ok
}

func fromRead(v ssa.Value, c *ssa.Call, lp *loop, seen map[ssa.Value]bool) bool {
	ins, ok := v.(ssa.Instruction)
	if !ok || seen[v] || !lp.body[ins.Block()] || isErrType(v.Type()) {
		return false
	}
	if p, ok := v.(*ssa.Phi); ok && p.Block() == lp.header {
		return false // as on the way round before
	}
	seen[v] = true
	if ex, ok := v.(*ssa.Extract); ok {
		return ex.Tuple == ssa.Value(c)
	}
	if cl, ok := v.(*ssa.Call); ok && calleeName(&cl.Call) == "errors.Is" {
		return false
	}
	for _, op := range ins.Operands(nil) {
		if *op != nil && fromRead(*op, c, lp, seen) {
			return true
		}
	}
	return false
}

// atEnd: the value of v when the read c fails with nothing read: its results are 0 or empty
func (l *loopCheck) atEnd(v ssa.Value, c *ssa.Call, val map[ssa.Value]ssa.Value, depth int) (constant.Value, bool) {
	if depth > 20 {
		return nil, false
	}
	if w, ok := val[v]; ok && w != v {
		return l.atEnd(w, c, val, depth+1)
	}
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil || x.Value.Kind() == constant.Float {
			return nil, false
		}
		return x.Value, true
	case *ssa.Extract:
		if x.Tuple == ssa.Value(c) {
			switch t := x.Type().Underlying().(type) {
			case *types.Basic:
				if t.Info()&types.IsInteger != 0 {
					return constant.MakeInt64(0), true
				}
				if t.Info()&types.IsString != 0 {
					return constant.MakeString(""), true
				}
			}
		}
	case *ssa.Convert:
		if t, ok := x.Type().Underlying().(*types.Basic); ok && t.Info()&types.IsInteger != 0 {
			if k, ok := l.atEnd(x.X, c, val, depth+1); ok && k.Kind() == constant.Int && constant.Sign(k) == 0 {
				return k, true
			}
		}
	case *ssa.ChangeType:
		return l.atEnd(x.X, c, val, depth+1)
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
			if ex, ok := x.Call.Args[0].(*ssa.Extract); ok && ex.Tuple == ssa.Value(c) {
				return constant.MakeInt64(0), true
			}
			if k, ok := l.atEnd(x.Call.Args[0], c, val, depth+1); ok && k.Kind() == constant.String {
				return constant.MakeInt64(int64(len(constant.StringVal(k)))), true
			}
		}
	case *ssa.UnOp:
		if x.Op == token.NOT {
			if k, ok := l.atEnd(x.X, c, val, depth+1); ok {
				return constant.UnaryOp(token.NOT, k, 0), true
			}
		}
	case *ssa.BinOp:
		a, ok1 := l.atEnd(x.X, c, val, depth+1)
		b, ok2 := l.atEnd(x.Y, c, val, depth+1)
		if !ok1 || !ok2 || a.Kind() != b.Kind() {
			return nil, false
		}
		switch x.Op {
		case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
			return constant.MakeBool(constant.Compare(a, x.Op, b)), true
		case token.AND:
			if a.Kind() == constant.Int {
				return constant.BinaryOp(a, token.AND, b), true
			}
		}
	}
	return nil, false
}

// succs: where the block goes on in the loop when the read e.end has failed at the end of the input
func (l *loopCheck) succs(b *ssa.BasicBlock, lp *loop, e struct {
	val map[ssa.Value]ssa.Value
	non map[ssa.Value]bool
	is0 map[ssa.Value]bool
	end *ssa.Call
}, to func(*ssa.BasicBlock)) {
	res := func(v ssa.Value) ssa.Value {
		for i := 0; i < 20; i++ {
			w, ok := e.val[v]
			if !ok || w == v {
				return v
			}
			v = w
		}
		return v
	}
	next := b.Succs
	if i, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
		if w, s, ok := nilTest(i); ok && e.non[res(w)] {
			next = b.Succs[s : s+1]
		} else if w, s, ok := nilTest(i); ok && e.is0[res(w)] {
			next = b.Succs[1-s : 2-s]
		} else if bo, ok := i.Cond.(*ssa.BinOp); ok && (e.non[res(bo.X)] || e.non[res(bo.Y)]) && isErrType(bo.X.Type()) {
			eq := eofValue(bo.X, bo.Y)
			if eq == (bo.Op == token.EQL) {
				next = b.Succs[:1]
			} else {
				next = b.Succs[1:]
			}
		} else if cl, ok := i.Cond.(*ssa.Call); ok && calleeName(&cl.Call) == "errors.Is" && e.non[res(cl.Call.Args[0])] {
			if eofValue(cl.Call.Args[1], nil) {
				next = b.Succs[:1]
			} else {
				next = b.Succs[1:]
			}
		} else if k, ok := l.atEnd(i.Cond, e.end, e.val, 0); ok && k.Kind() == constant.Bool {
			if constant.BoolVal(k) {
				next = b.Succs[:1]
			} else {
				next = b.Succs[1:]
			}
		}
	}
	for _, s := range next {
		if lp.body[s] {
			to(s)
		}
	}
}
