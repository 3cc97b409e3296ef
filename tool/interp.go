package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"runtime"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Obl struct {
	Key    string
	Kind   string
	Fn     *ssa.Function
	Instr  ssa.Instruction
	Pos    token.Pos
	OK     int
	Fail   int
	Detail string
	Chain  []string
	Path   []string
	Wit    string
	Why    string
	Tries  int
}

type Outcome struct {
	st  *State
	ret []Val
}

type CallHook func(in *Interp, st *State, fn *ssa.Function, args []Val) ([]callRes, bool)

type Interp struct {
	showDoc    bool // the input is an unknown JSON document
	P          *Program
	obls       map[string]*Obl
	stack      []*ssa.Function
	sites      []ssa.Instruction
	steps      int
	maxStep    int
	unmod      map[string]int
	funcs      map[*ssa.Function]bool
	globals    map[*ssa.Global]int
	base       map[int]Val
	aborted    string
	hook       CallHook
	noMerge    bool
	fresh      int
	cap        int
	loopN      int
	onStore    func(st *State, instr ssa.Instruction, p *PtrV)
	hookInvoke func(in *Interp, st *State, instr ssa.Instruction, r *OpaqueV, m *types.Func, args []Val) ([]callRes, bool)
	quiet      int
	quietFail  bool
	bad        *State // the state in which the obligation being recorded fails
	show       []Val  // what a witness of a failed obligation shows
}

func NewInterp(p *Program) *Interp {
	return &Interp{P: p, obls: map[string]*Obl{}, unmod: map[string]int{}, funcs: map[*ssa.Function]bool{}, globals: map[*ssa.Global]int{},
		base: map[int]Val{}, maxStep: 4000000, cap: 48}
}

func (in *Interp) freshName(p string) string {
	in.fresh++
	return fmt.Sprintf("%s#%d", p, in.fresh)
}

type item struct {
	blk, prev *ssa.BasicBlock
	env       map[ssa.Value]Val
	st        *State
	defers    []*ssa.Defer
	denv      []deferred
}

type deferred struct {
	fn   Val
	args []Val
	call *ssa.CallCommon
	ins  *ssa.Defer
}

func (it *item) fork() *item {
	return &item{it.blk, it.prev, cpMap(it.env), it.st.clone(), it.defers, it.denv[:len(it.denv):len(it.denv)]}
}

type callRes struct {
	st  *State
	val Val
}

func one(st *State, v Val) []callRes { return []callRes{{st, v}} }

type stop struct{ why string }

func (in *Interp) tick() {
	in.steps++
	if prof != nil && len(in.stack) > 0 {
		prof[in.stack[len(in.stack)-1].String()]++
	}
	if in.steps > in.maxStep {
		panic(stop{"analysis budget exhausted"})
	}
	if in.steps&0xfff == 0 && time.Since(started) > budget()+time.Minute {
		panic(stop{"time budget of the check used up"})
	}
	if in.steps&0xfff == 0 && heap() > maxHeap {
		runtime.GC()
		if heap() > maxHeap {
			panic(stop{"memory budget of the check used up"})
		}
	}
}

// oblige records a proof obligation at the current instruction; if it is not proved it is recorded as failed
func (in *Interp) oblige(st *State, instr ssa.Instruction, kind string, proved bool, detail string) {
	if st.dead {
		return
	}
	if in.quiet > 0 {
		if !proved {
			in.quietFail = true
		}
		return
	}
	fn := instr.Parent()
	// attribute to the innermost repository frame
	ins := instr
	if !in.P.isRepoFn(fn) {
		for i := len(in.sites) - 1; i >= 0; i-- {
			if s := in.sites[i]; s != nil && in.P.isRepoFn(s.Parent()) {
				ins = s
				fn = s.Parent()
				break
			}
		}
	}
	key := fmt.Sprintf("%s:%s:%p", kind, fn.String(), ins)
	o := in.obls[key]
	if o == nil {
		o = &Obl{Key: key, Kind: kind, Fn: fn, Instr: ins, Pos: ins.Pos()}
		in.obls[key] = o
	}
	if proved {
		o.OK++
		return
	}
	bad := in.bad
	in.bad = nil
	if bad == nil {
		bad = st
	}
	o.Fail++
	if in.showDoc {
		in.show = []Val{jsonShow(bad)}
	}
	if in.show != nil && o.Wit == "" && o.Tries < 6 && !bad.dead {
		o.Tries++
		if w, why := in.witness(bad, in.show...); w != "" {
			o.Wit = w
			o.Detail = ""
			o.Chain = nil
		} else {
			o.Why = why
		}
	}
	if o.Detail == "" {
		o.Detail = detail
		for _, f := range in.stack {
			o.Chain = append(o.Chain, f.String())
		}
		o.Path = st.pathString()
	}
}

// ---------------------------------------------------------------- functions

func (in *Interp) execFn(fn *ssa.Function, args []Val, binds []Val, st *State, site ssa.Instruction) []Outcome {
	if fn.Blocks == nil {
		panic(stop{"no body: " + fn.String()})
	}
	if len(in.stack) > 60 {
		panic(stop{"call depth"})
	}
	for _, f := range in.stack {
		if f == fn {
			n := 0
			for _, g := range in.stack {
				if g == fn {
					n++
				}
			}
			if n > 6 {
				panic(stop{"recursion in " + fn.String()})
			}
		}
	}
	in.stack = append(in.stack, fn)
	in.sites = append(in.sites, site)
	defer func() {
		in.stack = in.stack[:len(in.stack)-1]
		in.sites = in.sites[:len(in.sites)-1]
	}()
	in.funcs[fn] = true
	env := map[ssa.Value]Val{}
	for i, p := range fn.Params {
		if i < len(args) {
			env[p] = args[i]
		} else {
			env[p] = in.symVal(st, p.Type(), in.freshName(p.Name()))
		}
	}
	for i, b := range fn.FreeVars {
		if i < len(binds) {
			env[b] = binds[i]
		}
	}
	it := &item{blk: fn.Blocks[0], env: env, st: st}
	_, _, outs := in.runRegion(fn, []*item{it}, nil)
	outs = in.mergeOutcomes(fn, outs)
	if debugOn && os.Getenv("VERIF_FN") != "" && strings.HasSuffix(fn.String(), os.Getenv("VERIF_FN")) {
		for _, o := range outs {
			fmt.Fprintln(os.Stderr, "out", fn, vkey(o.ret[0]))
		}
	}
	return outs
}

func isErrType(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Name() == "error" && n.Obj().Pkg() == nil
}

// mergeOutcomes joins all outcomes that report an error into one partition
func (in *Interp) mergeOutcomes(fn *ssa.Function, outs []Outcome) []Outcome {
	res := fn.Signature.Results()
	if in.noMerge || res.Len() == 0 || !isErrType(res.At(res.Len()-1).Type()) || len(outs) < 3 {
		return outs
	}
	var good []Outcome
	var bad []Outcome
	for _, o := range outs {
		if in.nonNil(o.st, o.ret[res.Len()-1]) {
			bad = append(bad, o)
		} else {
			good = append(good, o)
		}
	}
	if len(bad) > 1 {
		acc := bad[0]
		eof := in.errClass(acc.ret[res.Len()-1])
		var rest []Outcome
		for _, b := range bad[1:] {
			if in.errClass(b.ret[res.Len()-1]) != eof {
				rest = append(rest, b)
				continue
			}
			acc = in.joinOutcome(fn, acc, b)
		}
		if len(rest) > 1 {
			a2 := rest[0]
			for _, b := range rest[1:] {
				a2 = in.joinOutcome(fn, a2, b)
			}
			rest = []Outcome{a2}
		}
		good = append(append(good, acc), rest...)
	} else {
		good = append(good, bad...)
	}
	return good
}

func (in *Interp) errClass(v Val) string {
	if o, ok := v.(*OpaqueV); ok && o.Key == "global:io.EOF" {
		return "EOF"
	}
	return ""
}

func (in *Interp) joinOutcome(fn *ssa.Function, a, b Outcome) Outcome {
	res := fn.Signature.Results()
	st := in.joinState(a.st, b.st)
	ret := make([]Val, len(a.ret))
	for i := range ret {
		ret[i] = in.joinVal(st, a.st, b.st, a.ret[i], b.ret[i], res.At(i).Type())
	}
	return Outcome{st, ret}
}

func (in *Interp) joinState(a, b *State) *State {
	if a.dead {
		return b
	}
	if b.dead {
		return a
	}
	r := newState()
	r.base = a.base
	r.notes["join"] = true
	for id, x := range a.iv {
		at := atomList[id]
		lo, hi := b.rangeAtom(at)
		if x.lo < lo {
			lo = x.lo
		}
		if x.hi > hi {
			hi = x.hi
		}
		if lo > at.Lo || hi < at.Hi {
			r.iv[id] = iv{lo, hi}
		}
	}
	for id, x := range a.kb {
		if y, ok := b.kb[id]; ok {
			m := x.mask & y.mask & ^(x.val ^ y.val)
			if m != 0 {
				r.kb[id] = kb{m, x.val & m}
			}
		}
	}
	bf := map[string]bool{}
	for _, f := range b.facts {
		bf[f.key()] = true
	}
	for _, f := range a.facts {
		if bf[f.key()] {
			r.facts = append(r.facts, f)
		}
	}
	for k, l := range a.neq {
		if b.neq[k] != nil {
			r.neq[k] = l
		}
	}
	for k, v := range a.preds {
		if w, ok := b.preds[k]; ok && w == v {
			r.preds[k] = v
		}
	}
	for k, v := range a.streq {
		if w, ok := b.streq[k]; ok && w == v {
			r.streq[k] = v
		}
	}
	for k := range a.notes {
		r.notes[k] = true
	}
	for k := range b.notes {
		r.notes[k] = true
	}
	for k, v := range a.ghost {
		if w, ok := b.ghost[k]; ok && vkey(v) == vkey(w) {
			r.ghost[k] = v
		}
	}
	for k, v := range a.sym {
		r.sym[k] = v
	}
	for k, v := range b.sym {
		if _, ok := r.sym[k]; !ok {
			r.sym[k] = v
		}
	}
	for id, x := range a.heap {
		y := b.get(id)
		if y == nil || vkey(x) == vkey(y) {
			r.heap[id] = x
		} else {
			r.heap[id] = in.joinVal(r, a, b, x, y, nil)
		}
	}
	for id, y := range b.heap {
		if _, ok := a.heap[id]; ok {
			continue
		}
		x := a.get(id)
		if x == nil || vkey(x) == vkey(y) {
			r.heap[id] = y
		} else {
			r.heap[id] = in.joinVal(r, a, b, x, y, nil)
		}
	}
	return r
}

func (in *Interp) joinVal(r, a, b *State, x, y Val, t types.Type) Val {
	if x != nil && y != nil && vkey(x) == vkey(y) {
		return x
	}
	switch u := x.(type) {
	case *Num:
		if v, ok := y.(*Num); ok {
			at := newAtom(in.freshName("join"), u.W, u.Signed)
			lo, hi := a.rangeLin(u.L)
			lo2, hi2 := b.rangeLin(v.L)
			if lo2 < lo {
				lo = lo2
			}
			if hi2 > hi {
				hi = hi2
			}
			r.setRange(at, lo, hi)
			return numAtom(at, u.W, u.Signed)
		}
	case *BoolV:
		return predV(in.freshName("bool"))
	case *StrV:
		ro := newSeqAtom(in.freshName("str"), byteT)
		if v, ok := y.(*StrV); ok {
			in.joinLen(r, a, b, ro, u.S, v.S)
		}
		return wholeStr(ro)
	case *StructV:
		if v, ok := y.(*StructV); ok && len(v.F) == len(u.F) {
			f := make([]Val, len(u.F))
			for i := range f {
				f[i] = in.joinVal(r, a, b, u.F[i], v.F[i], nil)
			}
			return &StructV{u.T, f}
		}
	case *SliceV:
		if v, ok := y.(*SliceV); ok {
			el := u.Elem
			if el == nil {
				el = v.Elem
			}
			if el != nil {
				ro := newSeqAtom(in.freshName("slice"), el)
				s := in.newSlice(r, []Seg{&SegSpan{ro, linConst(0), ro.Len.L}}, el)
				l1, h1 := a.rangeLin(u.lenLin())
				l2, h2 := b.rangeLin(v.lenLin())
				if l2 < l1 {
					l1 = l2
				}
				if h2 > h1 {
					h1 = h2
				}
				r.setRange(ro.Len.L.T[0].A, l1, h1)
				return s
			}
		}
	case *SeqV:
		if v, ok := y.(*SeqV); ok {
			var el types.Type = byteT
			for _, g := range u.S {
				switch z := g.(type) {
				case *SegSpan:
					el = z.R.Elem
				case *SegComp:
					el = z.Elem
				}
			}
			ro := newSeqAtom(in.freshName("seq"), el)
			in.joinLen(r, a, b, ro, u.S, v.S)
			return &SeqV{[]Seg{&SegSpan{ro, linConst(0), ro.Len.L}}}
		}
	case *MapObj:
		return &MapObj{Sym: in.freshName("map"), KT: u.KT, VT: u.VT}
	case *ChanObj:
		return &ChanObj{Any: true}
	case *ScanObj:
		return &ScanObj{Any: true, Err: &OpaqueV{Key: in.freshName("scanerr"), T: errorT}, Cur: wholeStr(newSeqAtom(in.freshName("line"), byteT))}
	case *BufObj:
		ro := newSeqAtom(in.freshName("buf"), byteT)
		if v, ok := y.(*BufObj); ok {
			in.joinLen(r, a, b, ro, u.S, v.S)
		}
		return &BufObj{S: []Seg{&SegSpan{ro, linConst(0), ro.Len.L}}}
	case *ReaderObj:
		v, ok := y.(*ReaderObj)
		if ok {
			z := *u
			at := newAtom(in.freshName("pos"), 64, true)
			lo, _ := a.rangeLin(u.Pos)
			lo2, _ := b.rangeLin(v.Pos)
			if lo2 < lo {
				lo = lo2
			}
			r.setRange(at, lo, 1<<40)
			z.Pos = linAtom(at)
			return &z
		}
	}
	nn := in.nonNil(a, x) && in.nonNil(b, y)
	o := &OpaqueV{Key: in.freshName("join"), T: t, NonNil: nn}
	t1, ok1 := dynTypes(x)
	t2, ok2 := dynTypes(y)
	if ok1 && ok2 {
		o.Ts = append([]types.Type{}, t1...)
	next:
		for _, d := range t2 {
			for _, e := range t1 {
				if types.Identical(d, e) {
					continue next
				}
			}
			o.Ts = append(o.Ts, d)
		}
	}
	return o
}

// dynTypes: the dynamic types an interface value may have
func dynTypes(v Val) ([]types.Type, bool) {
	switch x := v.(type) {
	case *IfaceV:
		return []types.Type{x.T}, true
	case *NilIface:
		return nil, true
	case *OpaqueV:
		return x.Ts, x.Ts != nil
	}
	return nil, false
}

// joinLen bounds the length of a joined sequence by those of its parts
func (in *Interp) joinLen(r, a, b *State, ro *SeqAtom, x, y []Seg) {
	l1, h1 := a.rangeLin(a.resolveLin(seqLen(x)))
	l2, h2 := b.rangeLin(b.resolveLin(seqLen(y)))
	r.setRange(ro.Len.L.T[0].A, min(l1, l2), max(h1, h2))
}

func (s *SliceV) lenLin() *Lin {
	if s.Obj == 0 || s.Len == nil {
		return linConst(0)
	}
	return s.Len
}

// nonNil: provably not nil
func (in *Interp) nonNil(st *State, v Val) bool {
	switch x := v.(type) {
	case *IfaceV:
		return true
	case *OpaqueV:
		if x.NonNil {
			return true
		}
		p, ok := st.preds["nil:"+x.Key]
		return ok && !p
	case *PtrV:
		if x.Obj == 0 {
			return false
		}
		if x.NilPred == "" {
			return true
		}
		p, ok := st.preds[x.NilPred]
		return ok && !p
	case *FuncV:
		return true
	case *MapV:
		if x.Obj == 0 {
			return false
		}
		if x.NilPred == "" {
			return true
		}
		p, ok := st.preds[x.NilPred]
		return ok && !p
	case *SliceV:
		return x.Obj != 0 && x.NilPred == ""
	}
	return false
}

func (in *Interp) isNilCond(st *State, v Val) *Cond {
	switch x := v.(type) {
	case nil, *NilIface, *NilV:
		return &Cond{Kind: 'c', C: true}
	case *IfaceV, *FuncV:
		return &Cond{Kind: 'c', C: false}
	case *OpaqueV:
		if x.NonNil {
			return &Cond{Kind: 'c', C: false}
		}
		return &Cond{Kind: 'p', P: "nil:" + x.Key}
	case *PtrV:
		if x.Obj == 0 {
			return &Cond{Kind: 'c', C: true}
		}
		if x.NilPred == "" {
			return &Cond{Kind: 'c', C: false}
		}
		return &Cond{Kind: 'p', P: x.NilPred}
	case *MapV:
		if x.Obj == 0 {
			return &Cond{Kind: 'c', C: true}
		}
		if x.NilPred == "" {
			return &Cond{Kind: 'c', C: false}
		}
		return &Cond{Kind: 'p', P: x.NilPred}
	case *SliceV:
		if x.Obj == 0 {
			return &Cond{Kind: 'c', C: true}
		}
		if x.NilPred == "" {
			return &Cond{Kind: 'c', C: false}
		}
		return &Cond{Kind: 'p', P: x.NilPred}
	}
	return &Cond{Kind: 'p', P: in.freshName("nil?")}
}

// ---------------------------------------------------------------- regions and loops

func (in *Interp) runRegion(fn *ssa.Function, items []*item, L *loop) (backs, exits []*item, outs []Outcome) {
	li := in.P.loops(fn)
	pend := map[*ssa.BasicBlock][]*item{}
	add := func(it *item, first bool) {
		if it.st.dead {
			return
		}
		if L != nil && !first {
			if it.blk == L.header {
				backs = append(backs, it)
				return
			}
			if !L.body[it.blk] {
				exits = append(exits, it)
				return
			}
		}
		pend[it.blk] = append(pend[it.blk], it)
		if in.cap > 100 && len(pend[it.blk]) > 4*in.cap {
			panic(stop{"too many cases"})
		}
	}
	for _, it := range items {
		add(it, true)
	}
	for len(pend) > 0 {
		var b *ssa.BasicBlock
		for x := range pend {
			if b == nil || li.rpo[x] < li.rpo[b] {
				b = x
			}
		}
		list := pend[b]
		delete(pend, b)
		if len(list) > in.cap {
			if debugOn {
				println("join", fn.String(), b.Index, len(list))
			}
			list = []*item{in.joinItems(list)}
		}
		for _, it := range list {
			if M := li.byHeader[b]; M != nil && M != L {
				ex, o := in.execLoop(fn, M, it)
				outs = append(outs, o...)
				for _, e := range ex {
					add(e, false)
				}
				continue
			}
			succ, o := in.runBlock(fn, it)
			outs = append(outs, o...)
			for _, s := range succ {
				add(s, false)
			}
		}
	}
	return
}

func (in *Interp) joinItems(list []*item) *item {
	// first evaluate phis individually so that values can be joined
	for _, it := range list {
		in.evalPhis(it)
	}
	acc := list[0]
	for _, it := range list[1:] {
		st := in.joinState(acc.st, it.st)
		env := map[ssa.Value]Val{}
		for k, v := range acc.env {
			w, ok := it.env[k]
			if !ok {
				continue
			}
			env[k] = in.joinVal(st, acc.st, it.st, v, w, k.Type())
		}
		d := acc.denv
		if len(it.denv) > len(d) {
			d = it.denv
		}
		acc = &item{blk: acc.blk, prev: nil, env: env, st: st, denv: d}
	}
	acc.prev = nil
	return acc
}

func (in *Interp) evalPhis(it *item) {
	if it.prev == nil {
		return
	}
	idx := -1
	for i, p := range it.blk.Preds {
		if p == it.prev {
			idx = i
		}
	}
	var ks []ssa.Value
	var vs []Val
	for _, ins := range it.blk.Instrs {
		phi, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		ks = append(ks, phi)
		vs = append(vs, in.val(it, phi.Edges[idx]))
	}
	for i, k := range ks {
		it.env[k] = vs[i]
	}
	it.prev = nil
}

func (in *Interp) execLoop(fn *ssa.Function, L *loop, entry *item) (exits []*item, outs []Outcome) {
	in.loopN++
	// mode 1: unrolling with a budget
	cur := []*item{entry.fork()}
	saveObls := in.snapshot()
	var ex []*item
	var os []Outcome
	ok := true
	forked := 0
	prefix := 0 // iterations that are the same on every path
	for iter := 0; len(cur) > 0; iter++ {
		if forked == 0 {
			prefix = iter
		}
		b, e, o := in.runRegion(fn, cur, L)
		ex = append(ex, e...)
		os = append(os, o...)
		if len(b) > 0 && (len(b) > 1 || len(e)+len(o) > 0) {
			forked++
		}
		cur = b
		limit := 10
		if forked >= limit && !in.boundedLoop(fn, L, cur) {
			ok = false
			break
		}
		width := 24
		if in.noMerge {
			width = in.cap
		}
		if len(cur) > width || iter > 2500 || forked > 300 || len(ex)+len(os) > 500+width {
			ok = false
			break
		}
	}
	if ok {
		return ex, os
	}
	in.restore(saveObls)
	if forked > 0 && prefix > 0 && buildsString(L) {
		cur = []*item{entry.fork()}
		for i := 0; i < prefix && len(cur) == 1; i++ {
			cur, _, _ = in.runRegion(fn, cur, L)
		}
		if len(cur) == 1 {
			return in.generalise(fn, L, cur[0])
		}
		in.restore(saveObls)
	}
	if firstDiffers(L) {
		// the loop tests for its first iteration: that one is analysed by itself
		b, e, o := in.runRegion(fn, []*item{entry.fork()}, L)
		if len(b) == 0 {
			return e, o
		}
		if len(b) == 1 {
			e2, o2 := in.generalise(fn, L, b[0])
			return append(e, e2...), append(o, o2...)
		}
		in.restore(saveObls)
	}
	return in.generalise(fn, L, entry)
}

// firstDiffers: a branch inside the loop compares the loop's counter with a constant
func firstDiffers(L *loop) bool {
	for b := range L.body {
		iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok || !L.body[b.Succs[0]] || !L.body[b.Succs[1]] {
			continue
		}
		bo, ok := iff.Cond.(*ssa.BinOp)
		if !ok {
			continue
		}
		if c, ok := bo.Y.(*ssa.Const); ok && c.Value != nil && isInt(bo.X.Type()) && counter(bo.X, L) {
			if n, ok := constant.Int64Val(constant.ToInt(c.Value)); ok && n >= 0 && n <= 1 {
				return true
			}
		}
	}
	return false
}

func isInt(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

// buildsString: the loop accumulates a string
func buildsString(L *loop) bool {
	for _, ins := range L.header.Instrs {
		if p, ok := ins.(*ssa.Phi); ok && isString(p.Type()) {
			return true
		}
	}
	return false
}

// boundedLoop: some exit test of the loop compares against a known constant or iterates over a known container
func (in *Interp) boundedLoop(fn *ssa.Function, L *loop, cur []*item) bool {
	if len(cur) == 0 {
		return true
	}
	for b := range L.body {
		for _, ins := range b.Instrs {
			if nx, ok := ins.(*ssa.Next); ok {
				it := cur[0]
				if v, ok := it.env[nx.Iter]; ok {
					if i, ok := v.(*IterV); ok {
						if o, ok := it.st.get(i.Obj).(*IterObj); ok && o.Sym == "" {
							return true
						}
					}
				}
			}
		}
		iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok || (L.body[b.Succs[0]] && L.body[b.Succs[1]]) {
			continue
		}
		bo, ok := iff.Cond.(*ssa.BinOp)
		if !ok {
			continue
		}
		for i, v := range []ssa.Value{bo.X, bo.Y} {
			if !counter([]ssa.Value{bo.Y, bo.X}[i], L) {
				continue
			}
			if x, ok := in.tryVal(cur[0], v).(*Num); ok {
				if lo, hi := cur[0].st.rangeLin(x.L); (hi <= 16 || lo == hi && hi <= 300) && (bo.Op == token.LSS || bo.Op == token.GTR || bo.Op == token.LEQ || bo.Op == token.GEQ) {
					if _, isphi := v.(*ssa.Phi); !isphi {
						if inner, ok := v.(ssa.Instruction); !ok || !L.body[inner.Block()] {
							return true
						}
						if _, ok := v.(*ssa.Const); ok {
							return true
						}
						if c, ok := v.(*ssa.Call); ok {
							if bl, ok := c.Call.Value.(*ssa.Builtin); ok && bl.Name() == "len" {
								return true
							}
						}
					}
				}
			}
		}
	}
	return false
}

// counter: the value is a variable of the loop, or one with a constant added
func counter(v ssa.Value, L *loop) bool {
	for d := 0; d < 4; d++ {
		switch x := v.(type) {
		case *ssa.Phi:
			return L.body[x.Block()]
		case *ssa.BinOp:
			if _, ok := x.Y.(*ssa.Const); ok {
				v = x.X
			} else if _, ok := x.X.(*ssa.Const); ok {
				v = x.Y
			} else {
				return false
			}
		case *ssa.Convert:
			v = x.X
		case *ssa.ChangeType:
			v = x.X
		default:
			return false
		}
	}
	return false
}

func (in *Interp) tryVal(it *item, v ssa.Value) (r Val) {
	defer func() {
		if e := recover(); e != nil {
			r = nil
		}
	}()
	return in.val(it, v)
}

func (in *Interp) snapshot() map[string]Obl {
	m := map[string]Obl{}
	for k, o := range in.obls {
		m[k] = *o
	}
	return m
}

func (in *Interp) restore(m map[string]Obl) {
	for k := range in.obls {
		if o, ok := m[k]; ok {
			c := o
			in.obls[k] = &c
		} else {
			delete(in.obls, k)
		}
	}
}

type pattern struct {
	kind string // "affine", "acc", "top"
	step int64
	per  int
	els  []Val
	str  bool
	inv  *ElemInv
	cls  cset
	at   *Lin // fill: where the first element is stored
}

func phiInit(e0 *item, phis []*ssa.Phi, loc string) Val {
	for _, p := range phis {
		if "phi:"+p.Name() == loc {
			return e0.env[p]
		}
	}
	return nil
}

type accDef struct {
	init []Seg
	els  []Val
	str  bool
	elem types.Type
	k    *Atom
	per  int
}

func (in *Interp) generalise(fn *ssa.Function, L *loop, entry *item) ([]*item, []Outcome) {
	e0 := entry.fork()
	in.evalPhis(e0)
	var phis []*ssa.Phi
	for _, ins := range L.header.Instrs {
		if p, ok := ins.(*ssa.Phi); ok {
			phis = append(phis, p)
		}
	}
	pats := map[string]*pattern{}
	k := newAtom(in.freshName("iter"), 64, true)
	k.Lo, k.Hi = 0, 1<<40
	var extra []*Lin
	kmax := int64(1 << 40)
	save := in.snapshot()
	accs := map[*SeqAtom]*accDef{}

	raise := func(loc, kind string) bool {
		p := pats[loc]
		if p != nil && p.kind == kind && kind == "top" {
			return false
		}
		pats[loc] = &pattern{kind: kind}
		return true
	}

	var gen func(st *State, loc string, v Val, t types.Type) Val
	gen = func(st *State, loc string, v Val, t types.Type) Val {
		p := pats[loc]
		if p == nil {
			switch x := v.(type) {
			case *StructV:
				f := make([]Val, len(x.F))
				ch := false
				for i := range f {
					var ft types.Type
					if s, ok := x.T.Underlying().(*types.Struct); ok {
						ft = s.Field(i).Type()
					}
					f[i] = gen(st, fmt.Sprintf("%s.%d", loc, i), x.F[i], ft)
					if f[i] != x.F[i] {
						ch = true
					}
				}
				if ch {
					return &StructV{x.T, f}
				}
			case *ReaderObj:
				if pp := pats[loc+".pos"]; pp != nil {
					y := *x
					n := gen(st, loc+".pos", intLin(x.Pos), types.Typ[types.Int])
					y.Pos = n.(*Num).L
					if pp.kind == "top" {
						st.assumeGE(y.Pos)
						st.assumeGE(linSub(seqLen(x.S), y.Pos))
					}
					return &y
				}
			}
			return v
		}
		switch p.kind {
		case "affine":
			n := v.(*Num)
			l := linAddK(n.L, p.step, linAtom(k))
			return &Num{n.W, n.Signed, l}
		case "acc":
			var segs []Seg
			var el types.Type = byteT
			switch x := v.(type) {
			case *SliceV:
				segs = in.sliceSegs(st, x)
				if x.Elem != nil {
					el = x.Elem
				} else if s, ok := t.Underlying().(*types.Slice); ok {
					el = s.Elem()
				}
			case *StrV:
				segs = x.S
			case *BufObj:
				segs = x.S
			case *SeqV:
				segs = x.S
			}
			r := newSeqAtom(in.freshName("acc"), el)
			d := &accDef{init: segs, els: p.els, str: p.str, elem: el, k: k, per: p.per}
			accs[r] = d
			var n *Lin
			if p.str {
				n = r.Len.L
			} else {
				n = linAddK(seqLen(segs), int64(p.per), linAtom(k))
			}
			body := []Seg{&SegSpan{r, linConst(0), n}}
			switch x := v.(type) {
			case *SliceV:
				s := in.newSlice(st, body, el)
				return s
			case *StrV:
				return &StrV{body}
			case *BufObj:
				y := *x
				y.S = body
				return &y
			case *SeqV:
				return &SeqV{body}
			}
		case "fill":
			x := v.(*SeqV)
			at := linAdd(p.at, linAtom(k))
			n := seqLen(x.S)
			st.assumeGE(linSub(n, at)) // every iteration so far stored below n
			pre, ok1 := in.seqSub(st, x.S, linConst(0), p.at)
			tail, ok2 := in.seqSub(st, x.S, at, n)
			if ok1 && ok2 {
				el := in.elemTypeOf(p.els[0])
				for _, g := range x.S {
					switch z := g.(type) {
					case *SegSpan:
						el = z.R.Elem
					case *SegComp:
						el = z.Elem
					}
				}
				r := newSeqAtom(in.freshName("fill"), el)
				accs[r] = &accDef{init: pre, els: p.els, elem: el, k: k, per: 1}
				return &SeqV{append([]Seg{&SegSpan{r, linConst(0), at}}, tail...)}
			}
			raise(loc, "top")
			return gen(st, loc, v, t)
		case "sgrow":
			r := newSeqAtom(in.freshName("str"), byteT)
			r.Class = p.cls
			lo, _ := st.rangeLin(seqLen(v.(*StrV).S))
			st.setRange(r.Len.L.T[0].A, lo, posInf)
			return wholeStr(r)
		case "grow":
			x := v.(*SliceV)
			el := x.Elem
			if el == nil {
				if s, ok := t.Underlying().(*types.Slice); ok {
					el = s.Elem()
				}
			}
			r := newSeqAtom(in.freshName("grow"), el)
			r.Inv = p.inv
			lo, _ := st.rangeLin(x.lenLin())
			st.setRange(r.Len.L.T[0].A, lo, posInf)
			s := in.newSlice(st, []Seg{&SegSpan{r, linConst(0), r.Len.L}}, el)
			if x.Obj == 0 {
				s.NilPred = in.freshName("nil:grow")
			}
			return s
		case "top":
			switch x := v.(type) {
			case *MapObj:
				return &MapObj{Sym: in.freshName("map"), KT: x.KT, VT: x.VT}
			case *IterObj:
				y := *x
				y.Sym = in.freshName("iter")
				return &y
			case *ChanObj:
				return &ChanObj{Any: true}
			case *ScanObj:
				return &ScanObj{Any: true, Err: &OpaqueV{Key: in.freshName("scanerr"), T: errorT}, Cur: wholeStr(newSeqAtom(in.freshName("line"), byteT))}
			case *BufObj:
				r := newSeqAtom(in.freshName("buf"), byteT)
				y := *x
				y.S = []Seg{&SegSpan{r, linConst(0), r.Len.L}}
				return &y
			case *SeqV:
				var el types.Type
				for _, g := range x.S {
					switch z := g.(type) {
					case *SegSpan:
						el = z.R.Elem
					case *SegComp:
						el = z.Elem
					case *SegElem:
						el = in.elemTypeOf(z.V)
					}
				}
				if el == nil {
					el = byteT
				}
				r := newSeqAtom(in.freshName("seq"), el)
				// the length of a backing array never changes
				n := seqLen(x.S)
				return &SeqV{[]Seg{&SegSpan{r, linConst(0), n}}}
			case *ArrayV:
				r := newSeqAtom(in.freshName("arr"), x.Elem)
				return &ArrayV{[]Seg{&SegSpan{r, linConst(0), seqLen(x.S)}}, x.Elem}
			case *ReaderObj:
				y := *x
				a := newAtom(in.freshName("pos"), 64, true)
				a.Lo, a.Hi = 0, 1<<40
				y.Pos = linAtom(a)
				st.assumeGE(linSub(seqLen(x.S), y.Pos))
				return &y
			case *Num:
				return numAtom(newAtom(in.freshName(loc), x.W, x.Signed), x.W, x.Signed)
			case *StructV:
				return in.symVal(st, x.T, in.freshName(loc))
			case *BoolV:
				return predV(in.freshName(loc))
			case *StrV:
				return wholeStr(newSeqAtom(in.freshName(loc), byteT))
			case *IfaceV:
				return &OpaqueV{Key: in.freshName(loc), T: t}
			}
			if t != nil {
				return in.symVal(st, t, in.freshName(loc))
			}
			return &OpaqueV{Key: in.freshName(loc)}
		}
		return v
	}

	// grow: a slice that only ever has elements appended to it
	grow := func(stB *State, loc string, cur Val, els []Val) bool {
		p := pats[loc]
		x, ok := cur.(*SliceV)
		if _, str := cur.(*StrV); str && (p == nil || p.kind != "top") { // a string that only ever has something appended to it
			var cls cset
			if p != nil && p.kind == "sgrow" {
				cls = p.cls
			} else if init, ok := phiInit(e0, phis, loc).(*StrV); ok {
				for _, g := range init.S {
					cls = csUnion(cls, in.segClass(e0.st, g))
				}
			} else {
				return raise(loc, "top")
			}
			old := cls
			for _, e := range els {
				y, ok := e.(*StrV)
				if !ok {
					return raise(loc, "top")
				}
				for _, g := range y.S {
					cls = csUnion(cls, in.segClass(stB, g))
				}
			}
			if p != nil && p.kind == "sgrow" && csEq(old, cls) {
				return false
			}
			pats[loc] = &pattern{kind: "sgrow", cls: cls}
			return true
		}
		if !ok {
			return raise(loc, "top")
		}
		if p != nil && p.kind == "top" {
			return false
		}
		var inv *ElemInv
		if p != nil && p.kind == "grow" {
			inv = p.inv
		} else {
			for _, g := range in.normSegs(e0.st, in.sliceSegs(e0.st, growInit(e0, phis, loc, x))) {
				switch z := g.(type) {
				case *SegElem:
					inv = in.meetInv(e0.st, inv, z.V)
				case *SegSpan:
					if z.R.Inv != nil {
						inv = &ElemInv{z.R.Inv.minLen, z.R.Inv.nonNil}
					} else {
						inv = &ElemInv{}
					}
				default:
					inv = &ElemInv{}
				}
			}
		}
		old := inv
		for _, e := range els {
			inv = in.meetInv(stB, inv, e)
		}
		if inv == nil {
			inv = &ElemInv{}
		}
		if p != nil && p.kind == "grow" && *old == *inv {
			return false
		}
		pats[loc] = &pattern{kind: "grow", inv: inv}
		return true
	}

	var observe func(stB *State, loc string, cur, next Val) bool
	observe = func(stB *State, loc string, cur, next Val) bool {
		if cur == nil || next == nil {
			return false
		}
		if vkey(cur) == vkey(next) {
			p := pats[loc]
			if p != nil && (p.kind == "affine" || p.kind == "fill") { // generic value but this path does not step
				return raise(loc, "top")
			}
			if p != nil && p.kind == "acc" {
				return grow(stB, loc, cur, p.els)
			}
			return false
		}
		p := pats[loc]
		if p != nil && p.kind == "top" {
			return false
		}
		switch x := cur.(type) {
		case *Num:
			y, ok := next.(*Num)
			if ok {
				d := stB.resolveLin(linSub(y.L, x.L))
				if d.isConst() {
					if p == nil {
						if d.C == 0 {
							return false
						}
						pats[loc] = &pattern{kind: "affine", step: d.C}
						return true
					}
					if p.kind == "affine" && p.step == d.C {
						return false
					}
				}
			}
			return raise(loc, "top")
		case *StructV:
			y, ok := next.(*StructV)
			if ok && len(x.F) == len(y.F) {
				ch := false
				for i := range x.F {
					if observe(stB, fmt.Sprintf("%s.%d", loc, i), x.F[i], y.F[i]) {
						ch = true
					}
				}
				return ch
			}
			return raise(loc, "top")
		case *ReaderObj:
			y, ok := next.(*ReaderObj)
			if ok {
				return observe(stB, loc+".pos", intLin(x.Pos), intLin(y.Pos))
			}
			return raise(loc, "top")
		case *SeqV:
			// one element per iteration is stored into a sequence, at successive places
			y, ok := next.(*SeqV)
			if !ok {
				return raise(loc, "top")
			}
			n := seqLen(x.S)
			at := func(pos *Lin) (Val, bool) {
				if !stB.proveGE(linSub(linSub(n, pos), linConst(1))) {
					return nil, false
				}
				a1, ok1 := in.seqSub(stB, x.S, linConst(0), pos)
				a2, ok2 := in.seqSub(stB, y.S, linConst(0), pos)
				b1, ok3 := in.seqSub(stB, x.S, linAddK(pos, 1, linConst(1)), n)
				b2, ok4 := in.seqSub(stB, y.S, linAddK(pos, 1, linConst(1)), n)
				if !ok1 || !ok2 || !ok3 || !ok4 {
					return nil, false
				}
				if e, _ := in.seqEqual(stB, a1, a2); !e {
					return nil, false
				}
				if e, _ := in.seqEqual(stB, b1, b2); !e {
					return nil, false
				}
				return in.seqIndexAt(stB, y.S, pos)
			}
			if p == nil {
				for j, g := range y.S {
					e, ok := g.(*SegElem)
					if !ok {
						continue
					}
					pos := stB.resolveLin(seqLen(y.S[:j]))
					if v, ok := at(pos); ok && vkey(v) == vkey(e.V) {
						if o, ok := in.seqIndexAt(stB, x.S, pos); ok && vkey(o) == vkey(v) {
							continue
						}
						start := pos
						for _, tm := range pos.T {
							if tm.A == k {
								if tm.K != 1 {
									return raise(loc, "top")
								}
								start = linSub(pos, linAtom(k))
							}
						}
						pats[loc] = &pattern{kind: "fill", at: start, els: []Val{v}}
						return true
					}
				}
				return raise(loc, "top")
			}
			if p.kind == "fill" {
				v, ok := at(linAdd(p.at, linAtom(k)))
				if !ok {
					return raise(loc, "top")
				}
				if vkey(v) != vkey(p.els[0]) {
					p.step++
					if p.step > 6 {
						return raise(loc, "top")
					}
					p.els = []Val{v}
					return true
				}
				return false
			}
			return raise(loc, "top")
		case *SliceV, *StrV, *BufObj:
			var a, b []Seg
			str := false
			switch u := cur.(type) {
			case *SliceV:
				w, ok := next.(*SliceV)
				if !ok {
					return raise(loc, "top")
				}
				a, b = in.sliceSegs(stB, u), in.sliceSegs(stB, w)
			case *StrV:
				w, ok := next.(*StrV)
				if !ok {
					return raise(loc, "top")
				}
				a, b = u.S, w.S
				str = true
			case *BufObj:
				w, ok := next.(*BufObj)
				if !ok {
					return raise(loc, "top")
				}
				a, b = u.S, w.S
			}
			_, isBuf := cur.(*BufObj)
			if isBuf && p != nil && p.kind == "acc" {
				str = p.str
			}
			els, ok := in.suffixOf(stB, a, b, str)
			if !ok && isBuf && p == nil { // not single bytes: text
				str = true
				els, ok = in.suffixOf(stB, a, b, true)
			}
			if !ok {
				return raise(loc, "top")
			}
			if p != nil && (p.kind == "grow" || p.kind == "sgrow") {
				return grow(stB, loc, cur, els)
			}
			if len(els) == 0 {
				if p != nil && p.kind == "acc" {
					return grow(stB, loc, cur, p.els)
				}
				return false
			}
			if p == nil {
				pats[loc] = &pattern{kind: "acc", per: len(els), els: els, str: str}
				return true
			}
			if p.kind == "acc" && p.per == len(els) {
				ch := false
				for i := range els {
					if vkey(els[i]) != vkey(p.els[i]) {
						ch = true
					}
				}
				if ch {
					// element expressions changed: remember the newest, at most a few times
					p.step++
					if p.step > 6 {
						return grow(stB, loc, cur, els)
					}
					p.els = els
					return true
				}
				return false
			}
			return grow(stB, loc, cur, els)
		}
		return raise(loc, "top")
	}

	for round := 0; ; round++ {
		in.restore(save)
		if round > 40 {
			panic(stop{"loop generalisation does not stabilise in " + fn.String()})
		}
		accs = map[*SeqAtom]*accDef{}
		it := e0.fork()
		if kmax < 1<<40 {
			it.st.setRange(k, 0, kmax)
		}
		for _, p := range phis {
			it.env[p] = gen(it.st, "phi:"+p.Name(), e0.env[p], p.Type())
		}
		locs := []int{}
		for key := range pats {
			if strings.HasPrefix(key, "obj:") {
				var id int
				fmt.Sscanf(key, "obj:%d", &id)
				locs = append(locs, id)
			}
		}
		sort.Ints(locs)
		last := -1
		for _, id := range locs {
			if id == last {
				continue
			}
			last = id
			it.st.set(id, gen(it.st, fmt.Sprintf("obj:%d", id), e0.st.get(id), nil))
		}
		for _, f := range extra {
			it.st.assumeGE(f)
		}
		head := it.fork()
		b, e, o := in.runRegion(fn, []*item{it}, L)
		// observe
		changed := false
		for _, back := range b {
			pv := map[*ssa.Phi]Val{}
			idx := -1
			for i, p := range L.header.Preds {
				if p == back.prev {
					idx = i
				}
			}
			for _, p := range phis {
				if idx >= 0 {
					pv[p] = in.val(back, p.Edges[idx])
				} else {
					pv[p] = back.env[p]
				}
			}
			for _, p := range phis {
				if observe(back.st, "phi:"+p.Name(), head.env[p], pv[p]) {
					changed = true
				}
			}
			for id, nv := range back.st.heap {
				cv := head.st.get(id)
				if cv == nil || e0.st.get(id) == nil {
					continue // allocated inside the loop
				}
				if vkey(cv) != vkey(nv) || hasPat(pats, fmt.Sprintf("obj:%d", id)) {
					if observe(back.st, fmt.Sprintf("obj:%d", id), cv, nv) {
						changed = true
					}
				}
			}
		}
		if changed {
			extra = nil
			kmax = 1 << 40
			continue
		}
		// candidate bounds on the iteration counter
		if round < 39 {
			cand, km := in.boundCandidates(e0.st, k, b)
			added := false
			if km < kmax {
				kmax = km
				added = true
			}
			have := map[string]bool{}
			for _, f := range extra {
				have[f.key()] = true
			}
			for _, f := range cand {
				if !have[f.key()] {
					extra = append(extra, f)
					added = true
				}
			}
			if added {
				continue
			}
		}
		// done: expand accumulators on the way out
		for _, x := range e {
			in.expandAcc(x, accs)
		}
		for i := range o {
			tmp := &item{env: map[ssa.Value]Val{}, st: o[i].st}
			in.expandAcc(tmp, accs)
			for j := range o[i].ret {
				o[i].ret[j] = in.expandVal(o[i].st, o[i].ret[j], accs)
			}
		}
		return e, o
	}
}

// growInit: the slice a location held when the loop was entered
func growInit(e0 *item, phis []*ssa.Phi, loc string, def *SliceV) *SliceV {
	for _, p := range phis {
		if loc == "phi:"+p.Name() {
			if s, ok := e0.env[p].(*SliceV); ok {
				return s
			}
		}
	}
	return def
}

func (in *Interp) meetInv(st *State, inv *ElemInv, v Val) *ElemInv {
	n := &ElemInv{nonNil: in.nonNil(st, v)}
	switch x := v.(type) {
	case *SliceV:
		n.minLen, _ = st.rangeLin(st.resolveLin(x.lenLin()))
	case *StrV:
		n.minLen, _ = st.rangeLin(st.resolveLin(seqLen(x.S)))
	}
	if inv == nil {
		return n
	}
	return &ElemInv{min(inv.minLen, n.minLen), inv.nonNil && n.nonNil}
}

func hasPat(p map[string]*pattern, loc string) bool {
	for k := range p {
		if k == loc || strings.HasPrefix(k, loc+".") {
			return true
		}
	}
	return false
}

func (in *Interp) elemTypeOf(v Val) types.Type {
	switch x := v.(type) {
	case *Num:
		switch {
		case x.W == 8 && !x.Signed:
			return byteT
		case x.W == 64 && x.Signed:
			return types.Typ[types.Int]
		case x.W == 64:
			return uintT
		}
	case *StrV:
		return stringT
	case *StructV:
		return x.T
	}
	return nil
}

// boundCandidates: inequalities on k that hold on every back edge, shifted to the loop head
func (in *Interp) boundCandidates(s0 *State, k *Atom, backs []*item) ([]*Lin, int64) {
	var out []*Lin
	km := int64(1 << 40)
	if len(backs) == 0 {
		return nil, 0
	}
	hi := int64(-1)
	for _, b := range backs {
		_, h := b.st.rangeAtom(k)
		if h > hi {
			hi = h
		}
	}
	if hi < 1<<40 {
		km = hi + 1
	}
	for _, f := range backs[0].st.facts {
		kc := int64(0)
		bad := false
		for _, t := range f.T {
			if t.A == k {
				kc = t.K
			} else if t.A.ID > k.ID {
				bad = true
			}
		}
		if kc >= 0 || bad {
			continue
		}
		all := true
		for _, b := range backs[1:] {
			if !b.st.proveGE(f) {
				all = false
			}
		}
		if !all {
			continue
		}
		// at the head: f with k := k-1, i.e. f - kc >= 0
		g := linAddK(f, 1, linConst(-kc))
		// holds for k = 0?
		g0 := linAddK(g, -kc, linAtom(k))
		if s0.proveGE(g0) {
			out = append(out, g)
		}
	}
	return out, km
}

// suffixOf: b == a ++ elements ; returns the elements
func (in *Interp) suffixOf(st *State, a, b []Seg, str bool) ([]Val, bool) {
	a, b = in.normSegs(st, a), in.normSegs(st, b)
	i := 0
	for i < len(a) {
		if i >= len(b) {
			return nil, false
		}
		if segKey(a[i]) != segKey(b[i]) {
			// span grown? (a is a shorter span of the same root)
			if x, ok := a[i].(*SegSpan); ok && i == len(a)-1 {
				if y, ok := b[i].(*SegSpan); ok && x.R == y.R && st.proveEQ(linSub(x.Off, y.Off)) {
					d := st.resolveLin(linSub(y.N, x.N))
					if d.isConst() && d.C >= 0 && d.C <= 8 {
						var els []Val
						for j := int64(0); j < d.C; j++ {
							els = append(els, in.spanElem(st, x.R, linAddK(linAdd(x.Off, x.N), 1, linConst(j))))
						}
						for _, g := range b[i+1:] {
							e, ok := g.(*SegElem)
							if !ok {
								return nil, false
							}
							els = append(els, e.V)
						}
						return els, true
					}
				}
			}
			return nil, false
		}
		i++
	}
	var els []Val
	for _, g := range b[i:] {
		switch x := g.(type) {
		case *SegElem:
			els = append(els, x.V)
		case *SegLit:
			if str {
				els = append(els, &StrV{[]Seg{x}})
			} else {
				for j := 0; j < len(x.S); j++ {
					els = append(els, numConst(int64(x.S[j]), 8, false))
				}
			}
		case *SegSpan:
			if !str {
				return nil, false
			}
			els = append(els, &StrV{[]Seg{x}})
		default:
			return nil, false
		}
	}
	if str && len(els) > 1 {
		s := &StrV{}
		for _, g := range b[i:] {
			s.S = append(s.S, g)
		}
		els = []Val{s}
	}
	return els, true
}

func (in *Interp) expandAcc(it *item, accs map[*SeqAtom]*accDef) {
	if len(accs) == 0 {
		return
	}
	for k, v := range it.env {
		it.env[k] = in.expandVal(it.st, v, accs)
	}
	for id, v := range it.st.heap {
		it.st.heap[id] = in.expandVal(it.st, v, accs)
	}
}

func (in *Interp) expandSegs(st *State, segs []Seg, accs map[*SeqAtom]*accDef) []Seg {
	hit := false
	for _, g := range segs {
		if s, ok := g.(*SegSpan); ok && accs[s.R] != nil {
			hit = true
		}
	}
	if !hit {
		return segs
	}
	out := []Seg{}
	for _, g := range segs {
		s, ok := g.(*SegSpan)
		if !ok || accs[s.R] == nil {
			out = append(out, g)
			continue
		}
		d := accs[s.R]
		if d.str {
			if !st.proveEQ(s.Off) {
				out = append(out, g)
				continue
			}
			out = append(out, d.init...)
			out = append(out, &SegComp{K: d.k, El: d.els, Off: linConst(0), N: linAtom(d.k), Elem: d.elem, Str: true, Len: linSub(s.N, seqLen(d.init))})
			continue
		}
		whole := append([]Seg{}, d.init...)
		whole = append(whole, &SegComp{K: d.k, El: d.els, Off: linConst(0), N: linAtom(d.k), Elem: d.elem})
		if d.per != 1 && !st.proveEQ(s.Off) {
			out = append(out, g)
			continue
		}
		sub, ok := in.seqSub(st, whole, s.Off, linAdd(s.Off, s.N))
		if !ok {
			out = append(out, g)
			continue
		}
		out = append(out, sub...)
	}
	return out
}

func (in *Interp) expandVal(st *State, v Val, accs map[*SeqAtom]*accDef) Val {
	switch x := v.(type) {
	case *StrV:
		return &StrV{in.expandSegs(st, x.S, accs)}
	case *SeqV:
		return &SeqV{in.expandSegs(st, x.S, accs)}
	case *BufObj:
		y := *x
		y.S = in.expandSegs(st, x.S, accs)
		return &y
	case *StructV:
		f := make([]Val, len(x.F))
		for i := range f {
			f[i] = in.expandVal(st, x.F[i], accs)
		}
		return &StructV{x.T, f}
	case *IfaceV:
		return &IfaceV{x.T, in.expandVal(st, x.V, accs)}
	}
	return v
}

// ---------------------------------------------------------------- blocks

func (in *Interp) runBlock(fn *ssa.Function, it0 *item) (succ []*item, outs []Outcome) {
	in.evalPhis(it0)
	type w struct {
		it *item
		i  int
	}
	work := []w{{it0, 0}}
	for len(work) > 0 {
		c := work[len(work)-1]
		work = work[:len(work)-1]
		it := c.it
		blk := it.blk
		i := c.i
	loop:
		for ; i < len(blk.Instrs); i++ {
			if it.st.dead {
				break
			}
			in.tick()
			switch ins := blk.Instrs[i].(type) {
			case *ssa.Phi, *ssa.DebugRef:
			case *ssa.If:
				c := in.boolOf(it.st, in.val(it, ins.Cond))
				switch it.st.evalCond(c) {
				case 1:
					it.prev, it.blk = blk, blk.Succs[0]
					succ = append(succ, it)
				case 0:
					it.prev, it.blk = blk, blk.Succs[1]
					succ = append(succ, it)
				default:
					f := it.fork()
					it.st.assume(c, true)
					f.st.assume(c, false)
					it.prev, it.blk = blk, blk.Succs[0]
					f.prev, f.blk = blk, blk.Succs[1]
					if !it.st.dead {
						succ = append(succ, it)
					}
					if !f.st.dead {
						succ = append(succ, f)
					}
				}
				break loop
			case *ssa.Jump:
				it.prev, it.blk = blk, blk.Succs[0]
				succ = append(succ, it)
				break loop
			case *ssa.Return:
				ret := make([]Val, len(ins.Results))
				for j, r := range ins.Results {
					ret[j] = in.val(it, r)
				}
				outs = append(outs, Outcome{it.st, ret})
				break loop
			case *ssa.Panic:
				in.oblige(it.st, ins, "panic", false, "explicit panic is reachable")
				break loop
			case *ssa.RunDefers:
				its := []*item{it}
				for len(its) > 0 && len(its[0].denv) > 0 {
					var nx []*item
					for _, x := range its {
						d := x.denv[len(x.denv)-1]
						x.denv = x.denv[:len(x.denv)-1]
						rs := in.callVal(x.st, d.ins, d.call, d.fn, d.args)
						for k, r := range rs {
							y := x
							if k < len(rs)-1 {
								y = &item{x.blk, x.prev, cpMap(x.env), r.st, nil, x.denv}
							}
							y.st = r.st
							nx = append(nx, y)
						}
					}
					its = nx
				}
				if len(its) == 0 {
					break loop
				}
				for _, x := range its[1:] {
					work = append(work, w{x, i + 1})
				}
				it = its[0]
			case *ssa.Defer:
				f, args := in.callee(it, &ins.Call)
				it.denv = append(it.denv, deferred{f, args, &ins.Call, ins})
			default:
				rs := in.instr(it, ins)
				v, isv := ins.(ssa.Value)
				live := rs[:0]
				for _, r := range rs {
					if !r.st.dead {
						live = append(live, r)
					}
				}
				if len(live) == 0 {
					break loop
				}
				for k := len(live) - 1; k > 0; k-- {
					y := &item{it.blk, it.prev, cpMap(it.env), live[k].st, it.defers, it.denv[:len(it.denv):len(it.denv)]}
					if isv {
						y.env[v] = live[k].val
					}
					work = append(work, w{y, i + 1})
				}
				it.st = live[0].st
				if isv {
					it.env[v] = live[0].val
				}
			}
		}
	}
	return
}

func (in *Interp) boolOf(st *State, v Val) *Cond {
	if b, ok := v.(*BoolV); ok {
		return b.C
	}
	return &Cond{Kind: 'p', P: in.freshName("bool?")}
}

// ---------------------------------------------------------------- values

func (in *Interp) val(it *item, v ssa.Value) Val {
	switch x := v.(type) {
	case *ssa.Const:
		return in.constVal(it.st, x)
	case *ssa.Function:
		return &FuncV{F: x}
	case *ssa.Builtin:
		return &FuncV{Bl: x.Name()}
	case *ssa.Global:
		return &PtrV{Obj: in.global(it.st, x)}
	}
	if r, ok := it.env[v]; ok {
		return r
	}
	r := in.symVal(it.st, v.Type(), in.freshName("undef:"+v.Name()))
	it.env[v] = r
	return r
}

func (in *Interp) constVal(st *State, c *ssa.Const) Val {
	if c.Value == nil {
		return in.zero(st, c.Type())
	}
	if w, s, ok := numType(c.Type()); ok {
		i := constant.ToInt(c.Value)
		if v, exact := constant.Int64Val(i); exact {
			return numConst(v, w, s)
		}
		if v, exact := constant.Uint64Val(i); exact {
			return numConst(int64(v&0x3fffffffffffffff), w, s)
		}
		return numConst(0, w, s)
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return boolConst(constant.BoolVal(c.Value))
	case constant.String:
		return strLit(constant.StringVal(c.Value))
	}
	return &OpaqueV{Key: "const:" + c.Value.ExactString(), T: c.Type(), NonNil: true, Distinct: true}
}

func (in *Interp) zero(st *State, t types.Type) Val {
	if w, s, ok := numType(t); ok {
		return numConst(0, w, s)
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsBoolean != 0 {
			return boolConst(false)
		}
		if u.Info()&types.IsString != 0 {
			return strLit("")
		}
		if u.Kind() == types.UntypedNil {
			return &NilV{}
		}
		return &OpaqueV{Key: "const:0", T: t, NonNil: true}
	case *types.Struct:
		f := make([]Val, u.NumFields())
		for i := range f {
			f[i] = in.zero(st, u.Field(i).Type())
		}
		if name := modelledStruct(t); name != "" {
			return in.zeroModelled(st, name, t)
		}
		return &StructV{t, f}
	case *types.Array:
		var segs []Seg
		if u.Len() <= 4096 {
			for i := int64(0); i < u.Len(); i++ {
				segs = append(segs, &SegElem{in.zero(st, u.Elem())})
			}
		}
		return &ArrayV{segs, u.Elem()}
	case *types.Slice:
		return &SliceV{Elem: u.Elem(), Off: linConst(0), Len: linConst(0), Cap: linConst(0)}
	case *types.Pointer:
		return &PtrV{}
	case *types.Map:
		return &MapV{}
	case *types.Interface:
		return &NilIface{}
	case *types.Signature, *types.Chan:
		return &NilV{T: t}
	case *types.Tuple:
		return &TupleV{}
	}
	return &OpaqueV{Key: "zero:" + t.String(), T: t}
}

// symVal: an unknown value of the type
func (in *Interp) symVal(st *State, t types.Type, name string) Val {
	if w, s, ok := numType(t); ok {
		a := newAtom(name, w, s)
		return numAtom(a, w, s)
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsBoolean != 0 {
			return predV(name)
		}
		if u.Info()&types.IsString != 0 {
			return wholeStr(newSeqAtom(name, byteT))
		}
		return &OpaqueV{Key: name, T: t, NonNil: true}
	case *types.Struct:
		if mn := modelledStruct(t); mn != "" {
			return in.symModelled(st, mn, t, name)
		}
		f := make([]Val, u.NumFields())
		for i := range f {
			f[i] = in.symVal(st, u.Field(i).Type(), name+"."+u.Field(i).Name())
		}
		return &StructV{t, f}
	case *types.Array:
		r := newSeqAtom(name, u.Elem())
		return &ArrayV{[]Seg{&SegSpan{r, linConst(0), linConst(u.Len())}}, u.Elem()}
	case *types.Slice:
		r := newSeqAtom(name, u.Elem())
		s := in.newSlice(st, []Seg{&SegSpan{r, linConst(0), r.Len.L}}, u.Elem())
		s.NilPred = "nil:" + name
		return s
	case *types.Pointer:
		id := st.alloc(nil)
		st.set(id, &lazyV{u.Elem(), name + ".*"})
		return &PtrV{Obj: id, NilPred: "nil:" + name}
	case *types.Map:
		id := st.alloc(&MapObj{Sym: name, KT: u.Key(), VT: u.Elem()})
		return &MapV{Obj: id, NilPred: "nil:" + name}
	case *types.Tuple:
		tv := &TupleV{}
		for i := 0; i < u.Len(); i++ {
			tv.V = append(tv.V, in.symVal(st, u.At(i).Type(), fmt.Sprintf("%s.%d", name, i)))
		}
		return tv
	}
	return &OpaqueV{Key: name, T: t}
}

// lazyV: contents of a symbolic object, materialised on first access
type lazyV struct {
	T    types.Type
	Name string
}

func (in *Interp) object(st *State, id int) Val {
	v := st.get(id)
	if l, ok := v.(*lazyV); ok {
		v = in.symVal(st, l.T, l.Name)
		st.set(id, v)
	}
	return v
}

// global returns the object of a package level variable
func (in *Interp) global(st *State, g *ssa.Global) int {
	if id, ok := in.globals[g]; ok {
		return id
	}
	id := nextObj
	nextObj++
	in.globals[g] = id
	t := g.Type().(*types.Pointer).Elem()
	tmp := newState()
	tmp.base = in.base
	if g.Pkg != nil && in.P.isRepoPkg(g.Pkg.Pkg) {
		in.base[id] = in.zero(tmp, t)
	} else {
		key := "global:" + g.Pkg.Pkg.Path() + "." + g.Name()
		switch t.Underlying().(type) {
		case *types.Interface:
			in.base[id] = &OpaqueV{Key: key, T: t, NonNil: true, Distinct: true}
		case *types.Pointer:
			in.base[id] = &OpaqueV{Key: key, T: t, NonNil: true, Distinct: true}
		default:
			in.base[id] = in.symVal(tmp, t, key)
		}
	}
	for k, v := range tmp.heap {
		in.base[k] = v
	}
	return id
}

// load reads through a pointer
func (in *Interp) load(st *State, p *PtrV, t types.Type) Val {
	v := in.object(st, p.Obj)
	v = in.walk(st, v, p.Path)
	return in.coerce(st, v, t)
}

func (in *Interp) coerce(st *State, v Val, t types.Type) Val {
	if t == nil {
		return v
	}
	bad := v == nil
	if o, ok := v.(*OpaqueV); ok {
		switch t.Underlying().(type) {
		case *types.Basic:
			if b := t.Underlying().(*types.Basic); b.Info()&(types.IsFloat|types.IsComplex) == 0 {
				bad = true
			}
		case *types.Struct, *types.Slice, *types.Array, *types.Map:
			if !o.NonNil || true {
				if modelledStruct(t) == "" {
					bad = true
				}
			}
		case *types.Pointer:
			if o.T == nil {
				bad = true
			}
		}
	}
	if bad {
		return in.symVal(st, t, in.freshName("havoc"))
	}
	return v
}

func (in *Interp) walk(st *State, v Val, path []PathEl) Val {
	for _, p := range path {
		if p.Idx != nil {
			var segs []Seg
			switch x := v.(type) {
			case *SeqV:
				segs = x.S
			case *ArrayV:
				segs = x.S
			default:
				return nil
			}
			e, ok := in.seqIndexAt(st, segs, p.Idx)
			if !ok {
				return nil
			}
			v = e
			if l, ok := v.(*lazyV); ok {
				v = in.symVal(st, l.T, l.Name)
			}
			continue
		}
		s, ok := v.(*StructV)
		if !ok || p.F >= len(s.F) {
			return nil
		}
		v = s.F[p.F]
	}
	return v
}

func (in *Interp) store(st *State, p *PtrV, v Val) {
	cur := in.object(st, p.Obj)
	st.set(p.Obj, in.update(st, cur, p.Path, v))
}

func (in *Interp) update(st *State, cur Val, path []PathEl, v Val) Val {
	if len(path) == 0 {
		return v
	}
	p := path[0]
	if p.Idx != nil {
		var segs []Seg
		arr, isArr := cur.(*ArrayV)
		switch x := cur.(type) {
		case *SeqV:
			segs = x.S
		case *ArrayV:
			segs = x.S
		default:
			return cur
		}
		a, b, ok := in.splitAt(st, segs, p.Idx)
		var c []Seg
		if ok {
			_, c, ok = in.splitAt(st, b, linConst(1))
		}
		if !ok {
			// weak update: havoc
			var el types.Type = byteT
			if isArr {
				el = arr.Elem
			} else {
				for _, g := range segs {
					switch z := g.(type) {
					case *SegSpan:
						el = z.R.Elem
					case *SegComp:
						el = z.Elem
					case *SegElem:
						if t := in.elemTypeOf(z.V); t != nil {
							el = t
						}
					}
				}
			}
			r := newSeqAtom(in.freshName("upd"), el)
			n := []Seg{&SegSpan{r, linConst(0), seqLen(segs)}}
			if isArr {
				return &ArrayV{n, el}
			}
			return &SeqV{n}
		}
		old, _ := in.seqIndexAt(st, segs, p.Idx)
		nv := v
		if len(path) > 1 {
			nv = in.update(st, old, path[1:], v)
		}
		n := append(append(append([]Seg{}, a...), &SegElem{nv}), c...)
		if isArr {
			return &ArrayV{n, arr.Elem}
		}
		return &SeqV{n}
	}
	s, ok := cur.(*StructV)
	if !ok || p.F >= len(s.F) {
		return cur
	}
	f := append([]Val{}, s.F...)
	f[p.F] = in.update(st, f[p.F], path[1:], v)
	return &StructV{s.T, f}
}
