package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C27: goroutines end, do not race, and use their channels properly.

func init() {
	register(&Check{ID: "C27",
		Rule: "For every go statement: each channel it shares with the function that starts it (or with another goroutine started there) is tracked to its make. A goroutine that sends unconditionally needs a receiver that, on every path to its return, drains the channel until it is closed; a goroutine that sends in a select with a quit channel needs that quit channel closed, or sent to without blocking, on every path of the starter to its return; a channel that is drained needs a sender that closes it on every path not taken by quitting; only the sending process closes, once, and does not send afterwards; memory the goroutine writes is not accessed by the starter, or vice versa, between the go statement and a complete drain or join.",
		Run:  runC27})
}

// process: the code of one goroutine (or of the function that starts them)
type process struct {
	fn    *ssa.Function
	start ssa.Instruction // the go statement, nil for the starter
	env   map[ssa.Value]ssa.Value
	first ssa.Instruction // where the process can interact from (the starter: the first go statement)
}

// resolve a channel (or pointer) to the instruction of the starter that makes it
func (p *process) resolve(v ssa.Value) ssa.Value {
	for i := 0; i < 12; i++ {
		switch x := v.(type) {
		case *ssa.Parameter, *ssa.FreeVar:
			w, ok := p.env[v]
			if !ok {
				return v
			}
			v = w
		case *ssa.UnOp:
			if x.Op != token.MUL {
				return v
			}
			a := p.resolve(x.X)
			al, ok := a.(*ssa.Alloc)
			if !ok {
				return v
			}
			var one ssa.Value
			n := 0
			for _, r := range *al.Referrers() {
				if s, ok := r.(*ssa.Store); ok && s.Addr == al {
					one, n = s.Val, n+1
				}
			}
			if n != 1 {
				return v
			}
			v = one
		case *ssa.ChangeType:
			v = x.X
		case *ssa.MakeInterface:
			v = x.X
		default:
			return v
		}
	}
	return v
}

type concCheck struct {
	c *Ctx
	e *effects
}

// enter a statically known call
func (p *process) enter(cc *ssa.CallCommon) *process {
	f := cc.StaticCallee()
	if f == nil || len(f.Blocks) == 0 {
		return nil
	}
	env := map[ssa.Value]ssa.Value{}
	for i, a := range cc.Args {
		if i < len(f.Params) {
			env[f.Params[i]] = p.resolve(a)
		}
	}
	if m, ok := cc.Value.(*ssa.MakeClosure); ok {
		for i, b := range m.Bindings {
			if i < len(f.FreeVars) {
				env[f.FreeVars[i]] = p.resolve(b)
			}
		}
	}
	return &process{fn: f, env: env}
}

// op kinds of an instruction on channel ch
type chanOp struct {
	ins  ssa.Instruction
	kind string // send, recv, close, selsend, selrecv, defersend, deferclose
	sel  int
}

func (cc *concCheck) ops(p *process, ch ssa.Value, depth int) []chanOp {
	var out []chanOp
	if depth > 4 {
		return nil
	}
	for _, b := range p.fn.Blocks {
		for _, ins := range b.Instrs {
			switch x := ins.(type) {
			case *ssa.Send:
				if p.resolve(x.Chan) == ch {
					out = append(out, chanOp{ins, "send", 0})
				}
			case *ssa.UnOp:
				if x.Op == token.ARROW && p.resolve(x.X) == ch {
					out = append(out, chanOp{ins, "recv", 0})
				}
			case *ssa.Select:
				for i, s := range x.States {
					if p.resolve(s.Chan) == ch {
						if s.Dir == types.SendOnly {
							out = append(out, chanOp{ins, "selsend", i})
						} else {
							out = append(out, chanOp{ins, "selrecv", i})
						}
					}
				}
			case ssa.CallInstruction:
				if _, ok := ins.(*ssa.Go); ok {
					continue
				}
				pre := ""
				if _, ok := ins.(*ssa.Defer); ok {
					pre = "defer"
				}
				if b, ok := x.Common().Value.(*ssa.Builtin); ok {
					if b.Name() == "close" && p.resolve(x.Common().Args[0]) == ch {
						out = append(out, chanOp{ins, pre + "close", 0})
					}
					continue
				}
				if q := p.enter(x.Common()); q != nil {
					for _, o := range cc.ops(q, ch, depth+1) {
						o.ins = ins
						if pre != "" && (o.kind == "send" || o.kind == "close") {
							o.kind = pre + o.kind
						}
						if pre == "" && !strings.HasPrefix(o.kind, "in") {
							o.kind = "in" + o.kind // within a call
						}
						out = append(out, o)
					}
				}
			}
		}
	}
	return out
}

// avoid: a path from just after `from` (or the entry) to a return that avoids the cut instructions and edges
func avoid(fn *ssa.Function, from ssa.Instruction, cut func(ssa.Instruction) bool, cutEdge func(b, s *ssa.BasicBlock) bool) *ssa.Return {
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock, i int) *ssa.Return
	walk = func(b *ssa.BasicBlock, i int) *ssa.Return {
		for ; i < len(b.Instrs); i++ {
			ins := b.Instrs[i]
			if cut(ins) {
				return nil
			}
			if r, ok := ins.(*ssa.Return); ok {
				return r
			}
		}
		for _, s := range b.Succs {
			if cutEdge != nil && cutEdge(b, s) {
				continue
			}
			if seen[s] {
				continue
			}
			seen[s] = true
			if r := walk(s, 0); r != nil {
				return r
			}
		}
		return nil
	}
	if from == nil {
		return walk(fn.Blocks[0], 0)
	}
	for i, ins := range from.Block().Instrs {
		if ins == from {
			return walk(from.Block(), i+1)
		}
	}
	return nil
}

// reachesIns: b can be executed after a
func reachesIns(a, b ssa.Instruction, cut func(ssa.Instruction) bool, cutEdge func(x, y *ssa.BasicBlock) bool) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(x *ssa.BasicBlock, i int) bool
	walk = func(x *ssa.BasicBlock, i int) bool {
		for ; i < len(x.Instrs); i++ {
			if x.Instrs[i] == b {
				return true
			}
			if cut != nil && cut(x.Instrs[i]) {
				return false
			}
		}
		for _, s := range x.Succs {
			if seen[s] || cutEdge != nil && cutEdge(x, s) {
				continue
			}
			seen[s] = true
			if walk(s, 0) {
				return true
			}
		}
		return false
	}
	for i, ins := range a.Block().Instrs {
		if ins == a {
			return walk(a.Block(), i+1)
		}
	}
	return false
}

// drained: the edge is taken when the channel has been closed and emptied
func (cc *concCheck) drained(p *process, ch ssa.Value) func(b, s *ssa.BasicBlock) bool {
	return func(b, s *ssa.BasicBlock) bool {
		i, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok {
			return false
		}
		cond, neg := i.Cond, false
		if u, ok := cond.(*ssa.UnOp); ok && u.Op == token.NOT {
			cond, neg = u.X, true
		}
		x, ok := cond.(*ssa.Extract)
		if !ok || x.Index != 1 {
			return false
		}
		u, ok := x.Tuple.(*ssa.UnOp)
		if !ok || u.Op != token.ARROW || p.resolve(u.X) != ch {
			return false
		}
		if neg {
			return s == b.Succs[0]
		}
		return s == b.Succs[1]
	}
}

// drains: the call drains the channel on every path
func (cc *concCheck) drainCall(p *process, ch ssa.Value, depth int) func(ssa.Instruction) bool {
	return func(ins ssa.Instruction) bool {
		x, ok := ins.(*ssa.Call)
		if !ok || depth > 3 {
			return false
		}
		q := p.enter(&x.Call)
		if q == nil || len(cc.ops(q, ch, 0)) == 0 {
			return false
		}
		return avoid(q.fn, nil, cc.drainCall(q, ch, depth+1), cc.drained(q, ch)) == nil
	}
}

// quitEdge: the edge of a select taken when another channel than ch fired
func quitEdge(p *process, ch ssa.Value) func(b, s *ssa.BasicBlock) bool {
	return func(b, s *ssa.BasicBlock) bool {
		i, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok {
			return false
		}
		bo, ok := i.Cond.(*ssa.BinOp)
		if !ok || bo.Op != token.EQL {
			return false
		}
		x, ok := bo.X.(*ssa.Extract)
		if !ok || x.Index != 0 {
			return false
		}
		sel, ok := x.Tuple.(*ssa.Select)
		if !ok {
			return false
		}
		k, ok := bo.Y.(*ssa.Const)
		if !ok {
			return false
		}
		n, _ := constant.Int64Val(k.Value)
		mine := -1
		for j, st := range sel.States {
			if p.resolve(st.Chan) == ch {
				mine = j
			}
		}
		if mine < 0 {
			return false
		}
		if int(n) == mine {
			return s == b.Succs[1] // not ours
		}
		return s == b.Succs[0]
	}
}

func inLoop(P *Program, ins ssa.Instruction) bool {
	for _, l := range P.loops(ins.Parent()).loops {
		if l.body[ins.Block()] {
			return true
		}
	}
	return false
}

func runC27(c *Ctx) {
	cc := &concCheck{c: c, e: newEffects(c.P)}
	for _, fn := range c.P.fns {
		if fn.Synthetic != "" || len(fn.Blocks) == 0 {
			continue
		}
		c.funcs[fn.String()] = true
		var procs []*process
		host := &process{fn: fn, env: map[ssa.Value]ssa.Value{}}
		syncs := false
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				if g, ok := ins.(*ssa.Go); ok {
					c.counts["go statements"]++
					if host.first == nil {
						host.first = g
					}
					q := host.enter(&g.Call)
					if q == nil {
						c.Undecided("go/"+fn.String(), c.P.pos(g.Pos()), "the function started is not known")
						continue
					}
					q.start = g
					procs = append(procs, q)
				}
				if cl, ok := ins.(ssa.CallInstruction); ok && strings.Contains(calleeName(cl.Common()), "sync.") {
					syncs = true
				}
			}
		}
		if len(procs) == 0 {
			continue
		}
		if syncs {
			c.Undecided("go/"+fn.String(), c.P.pos(fn.Pos()), "goroutines joined by package sync")
			continue
		}
		cc.host(host, procs)
	}
}

func has(ops []chanOp, kinds ...string) []chanOp {
	var out []chanOp
	for _, o := range ops {
		for _, k := range kinds {
			if o.kind == k {
				out = append(out, o)
			}
		}
	}
	return out
}

func (cc *concCheck) host(host *process, procs []*process) {
	c := cc.c
	fn := host.fn
	all := append([]*process{host}, procs...)
	name := func(p *process) string {
		if p == host {
			return fn.String()
		}
		return "the goroutine " + p.fn.String()
	}
	var chans []*ssa.MakeChan
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			if m, ok := ins.(*ssa.MakeChan); ok {
				chans = append(chans, m)
			}
		}
	}
	for n, ch := range chans {
		c.counts["channels"]++
		key := fmt.Sprintf("%s/channel %d", fn.String(), n)
		capacity := int64(-1)
		if k, ok := ch.Size.(*ssa.Const); ok {
			capacity, _ = constant.Int64Val(k.Value)
		}
		ops := map[*process][]chanOp{}
		for _, p := range all {
			ops[p] = cc.ops(p, ch, 0)
		}
		pos := func(i ssa.Instruction) string {
			if w := c.P.pos(i.Pos()); w != "?" {
				return w
			}
			return c.P.pos(i.Parent().Pos())
		}
		// closing
		var closers []*process
		for _, p := range all {
			if len(has(ops[p], "close", "deferclose", "inclose")) > 0 {
				closers = append(closers, p)
			}
		}
		ok := true
		fail := func(what string, at ssa.Instruction, why string) {
			ok = false
			c.Fail(key+"/"+what, pos(at), why)
		}
		if len(closers) > 1 {
			fail("close", ops[closers[1]][0].ins, "the channel made at "+pos(ch)+" is closed by "+name(closers[0])+" and by "+name(closers[1]))
		}
		for _, p := range closers {
			for _, a := range has(ops[p], "close", "inclose") {
				for _, b := range has(ops[p], "send", "insend", "selsend", "close", "deferclose") {
					if a.ins != b.ins && reachesIns(a.ins, b.ins, nil, nil) || a.ins == b.ins && a.kind == "close" && inLoop(c.P, a.ins) && reachesIns(a.ins, a.ins, nil, nil) {
						fail("after close", b.ins, name(p)+" uses the channel made at "+pos(ch)+" after it has closed it ("+b.kind+")")
					}
				}
			}
			for _, q := range all {
				if q != p && len(has(ops[q], "send", "selsend", "insend", "inselsend")) > 0 {
					fail("close by another", has(ops[p], "close", "deferclose", "inclose")[0].ins, name(p)+" closes the channel made at "+pos(ch)+" that "+name(q)+" may be sending to")
				}
			}
		}
		// senders
		for _, p := range procs {
			sends := has(ops[p], "send", "insend")
			if len(sends) > 0 {
				blocked := capacity <= 0 || inLoop(c.P, sends[0].ins) || int64(len(sends)) > capacity
				if blocked {
					good := false
					var why string
					var at ssa.Instruction = sends[0].ins
					recvs := 0
					for _, q := range all {
						if q == p || len(has(ops[q], "recv", "selrecv", "inrecv", "inselrecv")) == 0 {
							continue
						}
						recvs++
						// a single send needs a single receive
						if !inLoop(c.P, sends[0].ins) && len(sends) == 1 {
							rec := map[ssa.Instruction]bool{}
							for _, o := range has(ops[q], "recv", "inrecv") {
								rec[o.ins] = true
							}
							if r := avoid(q.fn, firstOf(q, p), func(i ssa.Instruction) bool { return rec[i] }, nil); r == nil {
								good = true
							} else {
								why, at = name(q)+" can return without receiving from it", r
							}
							continue
						}
						if r := avoid(q.fn, firstOf(q, p), cc.drainCall(q, ch, 0), cc.drained(q, ch)); r == nil {
							good = true
						} else {
							why, at = name(q)+" can return without having drained it", r
						}
					}
					if recvs == 0 {
						why = "nothing receives from it"
					}
					if !good {
						fail("blocked sender", at, name(p)+" sends to the channel made at "+pos(ch)+", and "+why+": the goroutine never ends")
					}
				}
			}
			for _, s := range has(ops[p], "selsend") {
				sel := s.ins.(*ssa.Select)
				if !sel.Blocking {
					continue
				}
				// the other cases let it go
				released := false
				var why string
				var at ssa.Instruction = sel
				for j, st := range sel.States {
					if j == s.sel || st.Dir != types.RecvOnly {
						continue
					}
					q := p.resolve(st.Chan)
					mk, isMk := q.(*ssa.MakeChan)
					if !isMk {
						released = true // a channel from elsewhere
						continue
					}
					qcap := int64(-1)
					if k, ok := mk.Size.(*ssa.Const); ok {
						qcap, _ = constant.Int64Val(k.Value)
					}
					signal := map[ssa.Instruction]bool{}
					blockingSend := false
					for _, o := range cc.ops(host, mk, 0) {
						switch o.kind {
						case "close", "deferclose", "inclose":
							signal[o.ins] = true
						case "send", "defersend", "insend":
							signal[o.ins] = true
							if qcap == 0 {
								blockingSend = true
								at = o.ins
							}
						}
					}
					isSignal := func(i ssa.Instruction) bool { return signal[i] }
					if len(signal) == 0 {
						why = "nothing signals the quit channel made at " + pos(mk)
						continue
					}
					if blockingSend {
						why = fn.String() + " signals the quit channel made at " + pos(mk) + " by a send that blocks when the goroutine has already ended"
						continue
					}
					// before the go statement (a deferred signal) or on every path after it
					pre := !reachesIns(fn.Blocks[0].Instrs[0], p.start, isSignal, nil) && !signal[fn.Blocks[0].Instrs[0]]
					if signal[fn.Blocks[0].Instrs[0]] {
						pre = true
					}
					if r := avoid(fn, p.start, isSignal, nil); !pre && r != nil {
						at, why = r, fn.String()+" can return without signalling the quit channel made at "+pos(mk)
						continue
					}
					released = true
				}
				if !released {
					// or the channel is always drained
					drainedAll := false
					for _, q := range all {
						if q != p && len(has(ops[q], "recv", "inrecv")) > 0 && avoid(q.fn, firstOf(q, p), cc.drainCall(q, ch, 0), cc.drained(q, ch)) == nil {
							drainedAll = true
						}
					}
					if strings.Contains(why, "by a send that blocks") {
						fail("blocked starter", at, why)
					} else if !drainedAll {
						fail("blocked sender", at, name(p)+" sends to the channel made at "+pos(ch)+" in a select, and "+why+": the goroutine never ends")
					}
				}
			}
		}
		// receivers that wait for the end
		for _, p := range all {
			loops := false
			var at ssa.Instruction
			for _, o := range has(ops[p], "recv", "inrecv") {
				if inLoop(c.P, o.ins) || o.kind == "inrecv" {
					loops = true
					at = o.ins
				}
			}
			if !loops {
				continue
			}
			closed := false
			why := "nothing closes it"
			for _, q := range closers {
				cl := map[ssa.Instruction]bool{}
				for _, o := range has(ops[q], "close", "deferclose", "inclose") {
					cl[o.ins] = true
				}
				var qe func(b, s *ssa.BasicBlock) bool
				if len(has(ops[q], "selsend")) > 0 {
					qe = quitEdge(q, ch)
				}
				if r := avoid(q.fn, nil, func(i ssa.Instruction) bool { return cl[i] }, qe); r == nil {
					closed = true
				} else {
					why = name(q) + " can return without closing it"
					at = r
				}
			}
			if !closed {
				fail("never closed", at, name(p)+" receives from the channel made at "+pos(ch)+" until it is closed, but "+why+": it waits for ever")
			}
		}
		if ok {
			c.Pass(key, "the channel made at "+pos(ch)+" is closed by its sender and cannot block a goroutine for ever")
		}
	}
	// memory
	for _, p := range procs {
		cc.races(host, p, procs)
	}
}

// firstOf: where q can meet the goroutine p
func firstOf(q, p *process) ssa.Instruction {
	if q.start == nil {
		return p.start
	}
	return nil
}

// races: memory shared by the starter and the goroutine
func (cc *concCheck) races(host, p *process, procs []*process) {
	c := cc.c
	fn := host.fn
	key := fn.String() + "/memory of " + p.fn.String()
	// joined: the goroutine has ended, or has nothing more to do
	join := func(i ssa.Instruction) bool {
		u, ok := i.(*ssa.UnOp)
		if !ok || u.Op != token.ARROW {
			return false
		}
		ch := host.resolve(u.X)
		for _, q := range procs {
			for _, o := range has(cc.ops(q, ch, 0), "send", "close") {
				if !inLoop(c.P, o.ins) && !inLoop(c.P, i) {
					return true
				}
			}
		}
		return false
	}
	var mks []ssa.Value
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			if m, ok := ins.(*ssa.MakeChan); ok {
				mks = append(mks, m)
			}
		}
	}
	edge := func(b, s *ssa.BasicBlock) bool {
		for _, m := range mks {
			if cc.drained(host, m)(b, s) {
				return true
			}
		}
		return false
	}
	cut := func(i ssa.Instruction) bool {
		if join(i) {
			return true
		}
		for _, m := range mks {
			if cc.drainCall(host, m, 0)(i) {
				return true
			}
		}
		return false
	}
	ok := true
	n := 0
	for in, v := range p.env {
		// pointers only; channels and functions are no memory
		switch v.Type().Underlying().(type) {
		case *types.Pointer, *types.Map, *types.Slice:
		default:
			continue
		}
		if _, isFn := v.(*ssa.Function); isFn {
			continue
		}
		// variables that hold a channel
		if pt, ok := v.Type().Underlying().(*types.Pointer); ok {
			if _, ch := pt.Elem().Underlying().(*types.Chan); ch {
				// set once before
				continue
			}
		}
		n++
		gw, gr := cc.touches(p.fn, in, 0)
		if !gw && !gr {
			continue
		}
		// accesses of the starter after the go statement
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				w, r := touchedBy(cc, ins, v)
				if !(w && (gw || gr) || r && gw) {
					continue
				}
				if ins == p.start || !reachesIns(p.start, ins, cut, edge) {
					continue
				}
				if g, isGo := ins.(*ssa.Go); isGo {
					_ = g
					continue
				}
				ok = false
				what := "reads"
				if w {
					what = "writes"
				}
				does := "writes"
				if !gw {
					does = "reads"
				}
				c.Fail(key, c.P.pos(ins.Pos()), fn.String()+" "+what+" "+v.Name()+" ("+v.Type().String()+") while the goroutine "+p.fn.String()+" may still be running and "+does+" it")
			}
		}
	}
	if ok {
		c.Pass(key, fmt.Sprintf("%d shared pointers: none is written by one side while the other uses it", n))
	}
}

// touches: the function writes, reads through the value
func (cc *concCheck) touches(fn *ssa.Function, v ssa.Value, depth int) (w, r bool) {
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			x, y := touchedBy(cc, ins, v)
			w, r = w || x, r || y
		}
	}
	return
}

func derived(a, v ssa.Value) bool {
	for i := 0; i < 10; i++ {
		if a == v {
			return true
		}
		switch x := a.(type) {
		case *ssa.FieldAddr:
			a = x.X
		case *ssa.IndexAddr:
			a = x.X
		case *ssa.UnOp:
			if x.Op != token.MUL {
				return false
			}
			a = x.X
		case *ssa.Slice:
			a = x.X
		case *ssa.MakeInterface:
			a = x.X
		case *ssa.ChangeType:
			a = x.X
		default:
			return false
		}
	}
	return false
}

// touchedBy: the instruction writes or reads memory through v
func touchedBy(cc *concCheck, ins ssa.Instruction, v ssa.Value) (w, r bool) {
	switch x := ins.(type) {
	case *ssa.Store:
		return derived(x.Addr, v), false
	case *ssa.MapUpdate:
		return derived(x.Map, v), false
	case *ssa.UnOp:
		return false, x.Op == token.MUL && derived(x.X, v)
	case *ssa.Lookup:
		return false, derived(x.X, v)
	case *ssa.Range:
		return false, derived(x.X, v)
	case ssa.CallInstruction:
		common := x.Common()
		if b, ok := common.Value.(*ssa.Builtin); ok {
			switch b.Name() {
			case "append", "copy", "delete":
				if len(common.Args) > 0 && derived(common.Args[0], v) {
					return b.Name() != "append", true
				}
			}
			return false, false
		}
		args := common.Args
		if common.IsInvoke() {
			args = append([]ssa.Value{common.Value}, args...)
		}
		f := common.StaticCallee()
		for i, a := range args {
			if !derived(a, v) || !hasPointers(a.Type()) {
				continue
			}
			r = true
			if f != nil && cc.e.sum[f] != nil {
				for rt := range cc.e.sum[f].writes {
					if rt.kind == "param" && rt.idx == i {
						w = true
					}
				}
			} else if i == 0 && f != nil && f.Signature.Recv() != nil {
				if _, isPtr := f.Signature.Recv().Type().(*types.Pointer); isPtr && mutator(f) {
					w = true
				}
			}
		}
	}
	return
}

// mutator: a method of a library type that changes its receiver
func mutator(f *ssa.Function) bool {
	switch f.Name() {
	case "Err", "String", "Len", "Text", "Bytes", "Name", "Cap":
		return false
	}
	return true
}
