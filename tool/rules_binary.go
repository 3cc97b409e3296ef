package main

import (
	"fmt"
	"go/types"
	"strings"
)

type decoded struct {
	st  *State
	err Val
	val Val
	t   types.Type
}

// errNil: 1 nil, 0 an error, -1 unknown
func (in *Interp) errNil(st *State, v Val) int {
	if _, ok := v.(*NilIface); ok {
		return 1
	}
	if in.nonNil(st, v) {
		return 0
	}
	return st.evalCond(in.isNilCond(st, v))
}

func (in *Interp) errDesc(v Val) string {
	if o, ok := v.(*OpaqueV); ok {
		return o.Key
	}
	return vstr(v)
}

// decodeBytes runs the kind's own binary decoder on the bytes
func (in *Interp) decodeOwn(st *State, t types.Type, segs []Seg) []decoded {
	fn := in.P.method(t, "UnmarshalBinary")
	if fn == nil {
		panic(stop{"no UnmarshalBinary on " + t.String()})
	}
	return in.decodeWith(st, t, fn.Name(), in.newSlice(st, segs, byteT))
}

// decodeWith calls a decoding method (bytes -> error) on a zero value of the type
func (in *Interp) decodeWith(st *State, t types.Type, method string, arg Val) []decoded {
	fn := in.P.method(t, method)
	if fn == nil {
		panic(stop{"no " + method + " on " + t.String()})
	}
	p := &PtrV{Obj: st.alloc(in.zero(st, t))}
	var out []decoded
	for _, o := range in.execFn(fn, []Val{p, arg}, nil, st, nil) {
		if !o.st.dead {
			out = append(out, decoded{o.st, o.ret[0], in.load(o.st, p, nil), t})
		}
	}
	return out
}

// decodeEvent runs events.Event's binary decoder
func (in *Interp) decodeEvent(st *State, method string, arg Val) []decoded {
	t := in.P.typ("midi/events", "Event")
	if t == nil {
		panic(stop{"no events.Event"})
	}
	var out []decoded
	for _, d := range in.decodeWith(st, t, method, arg) {
		for _, r := range in.field(d.st, d.val, t, "Event") {
			out = append(out, unwrap(r.st, d.err, r.val))
		}
	}
	return out
}

func unwrap(st *State, err Val, v Val) decoded {
	if i, ok := v.(*IfaceV); ok {
		return decoded{st, err, i.V, i.T}
	}
	return decoded{st, err, v, nil}
}

type track struct {
	st   *State
	err  Val
	evs  []decoded
	ok   bool // the event list has a known shape
	why  string
	ctx  *PtrV
	mtrk *PtrV
}

// decodeTrack runs the track decoder on a chunk with the event bytes
func (in *Interp) decodeTrack(st *State, prep func(st *State, ctx *PtrV), segs []Seg) []track {
	chunk := []Seg{&SegLit{"MTrk"}}
	for i := 0; i < 4; i++ {
		chunk = append(chunk, &SegElem{byteAtom(fmt.Sprintf("chunklen%d", i))})
	}
	chunk = append(strToElems(chunk), segs...)
	return in.trackFrom(st, prep, in.newSlice(st, chunk, byteT))
}

// trackFrom runs the track decoder on a whole chunk, with a fresh context
func (in *Interp) trackFrom(st *State, prep func(st *State, ctx *PtrV), chunk *SliceV) []track {
	t := in.P.typ("midi", "MTrk")
	fn := in.P.method(t, "UnmarshalBinary")
	nc := in.P.fn("midi/context", "NewContext")
	if fn == nil || nc == nil {
		panic(stop{"no track decoder"})
	}
	var out []track
	for _, o := range in.execFn(nc, nil, nil, st, nil) {
		ctx, ok := o.ret[0].(*PtrV)
		if !ok {
			panic(stop{"context is not an object"})
		}
		st := o.st
		if prep != nil {
			prep(st, ctx)
		}
		z := in.zero(st, t).(*StructV)
		f := append([]Val{}, z.F...)
		set := false
		ut := t.Underlying().(*types.Struct)
		for i := 0; i < ut.NumFields(); i++ {
			if strings.HasSuffix(ut.Field(i).Type().String(), "context.Context") {
				f[i] = ctx
				set = true
			}
		}
		if !set {
			panic(stop{"track has no context"})
		}
		p := &PtrV{Obj: st.alloc(&StructV{t, f})}
		for _, r := range in.execFn(fn, []Val{p, chunk}, nil, st, nil) {
			if r.st.dead {
				continue
			}
			tr := track{st: r.st, err: r.ret[0], ctx: ctx, mtrk: p}
			if in.errNil(r.st, r.ret[0]) == 1 {
				ev := in.field(r.st, in.load(r.st, p, nil), t, "Events")
				if len(ev) == 1 {
					tr.evs, tr.ok, tr.why = in.eventList(r.st, ev[0].val)
				}
			}
			out = append(out, tr)
		}
	}
	return out
}

// eventList: the events of a slice of *Event of known shape
func (in *Interp) eventList(st *State, v Val) ([]decoded, bool, string) {
	s, ok := v.(*SliceV)
	if !ok {
		return nil, false, "no slice"
	}
	if s.Obj == 0 {
		return nil, true, ""
	}
	var out []decoded
	for _, g := range in.normSegs(st, in.sliceSegs(st, s)) {
		e, ok := g.(*SegElem)
		if !ok {
			return nil, false, "event list " + segString(g)
		}
		p, ok := e.V.(*PtrV)
		if !ok || p.Obj == 0 {
			return nil, false, "event " + vstr(e.V)
		}
		sv, ok := in.load(st, p, nil).(*StructV)
		if !ok {
			return nil, false, "event " + vstr(e.V)
		}
		out = append(out, unwrap(st, &NilIface{}, sv.F[0]))
	}
	return out, true, ""
}

// checkFields compares the decoded event with the expectation of its kind
func (c *Ctx) checkFields(key string, in *Interp, d *evInput, k *Kind, x decoded, show Val, extra ...fieldExp) {
	want := k.typ(c.P)
	if x.t == nil || !types.Identical(x.t, want) {
		got := "nothing"
		if x.t != nil {
			got = x.t.String()
		}
		if w, why := in.witness(x.st, show); w != "" {
			c.Fail(key+":kind", "", fmt.Sprintf("%s event decoded as %s %s", k.Name, got, w), x.st.pathString()...)
		} else {
			c.Undecided(key+":kind", "", why)
		}
		return
	}
	exp := append(k.Fields(in, x.st, d), fieldExp{"Delta()", d.delta})
	exp = append(exp, extra...)
	for _, e := range exp {
		rs := in.field(x.st, x.val, x.t, e.path)
		if rs == nil {
			c.Undecided(key+":"+e.path, "", "no such field")
			continue
		}
		for _, r := range rs {
			st, got := r.st, r.val
			switch ok, why := in.same(st, got, e.want, show); ok {
			case 1:
				c.Pass(key+":"+e.path, vstr(in.resolveVal(st, got)))
			case 0:
				c.Fail(key+":"+e.path, c.posOf(x.t), fmt.Sprintf("%s.%s %s", k.Name, e.path, why), st.pathString()...)
			default:
				c.Undecided(key+":"+e.path, c.posOf(x.t), why)
			}
		}
	}
}

func (c *Ctx) posOf(t types.Type) string {
	if n, ok := t.(*types.Named); ok {
		return c.P.pos(n.Obj().Pos())
	}
	return ""
}

// splitEnds partitions a payload input by its first byte and terminator, so that the expectation is definite
func (k *Kind) cases(in *Interp, st *State, d *evInput) []*State {
	out := []*State{st}
	split := func(c *Cond) {
		var nx []*State
		for _, s := range out {
			for _, tr := range []bool{true, false} {
				t := s.clone()
				t.assume(c, tr)
				if !t.dead {
					nx = append(nx, t)
				}
			}
		}
		out = nx
	}
	switch k.Name {
	case "SequencerSpecificEvent":
		// the manufacturer ID is one byte, or 00 and two more
		split(&Cond{Kind: 'e', L: d.payElem(st, 0).L})
		for _, s := range out {
			if s.proveEQ(d.payElem(s, 0).L) {
				s.assumeGE(linAddK(d.payN, 1, linConst(-3)))
			}
		}
	case "SysExMessage":
		split(&Cond{Kind: 'e', L: d.payElem(st, 0).L})
		for _, s := range out {
			if s.proveEQ(d.payElem(s, 0).L) {
				s.assumeGE(linAddK(d.payN, 1, linConst(-4)))
				for i := int64(1); i < 3; i++ {
					maxByte(s, d.payElem(s, i), 0x7f)
				}
			}
		}
		fallthrough
	case "SysExContinuationMessage":
		end := elemNum(st, d.root, intLin(linAddK(d.payN, 1, linConst(-1))), 8, false)
		split(&Cond{Kind: 'e', L: linAddK(end.L, 1, linConst(-0xf7))})
	}
	if pin != nil {
		n := pin.n
		for _, s := range out {
			pin.n = n
			pinEvent(s, d)
		}
	}
	return out
}

func (c *Ctx) freshState(in *Interp) *State {
	st := newState()
	st.base = in.base
	return st
}

type decEntry struct {
	name string
	run  func(in *Interp, st *State, k *Kind, d *evInput) []decoded
}

func decEntries() []decEntry {
	return []decEntry{
		{"own", func(in *Interp, st *State, k *Kind, d *evInput) []decoded {
			return in.decodeOwn(st, k.typ(in.P), d.segs)
		}},
		{"event", func(in *Interp, st *State, k *Kind, d *evInput) []decoded {
			if k.Name == "SysExEscapeMessage" {
				return nil
			}
			return in.decodeEvent(st, "UnmarshalBinary", in.newSlice(st, d.segs, byteT))
		}},
		{"track", func(in *Interp, st *State, k *Kind, d *evInput) []decoded {
			var out []decoded
			prep := func(st *State, ctx *PtrV) {
				if k.Name == "SysExContinuationMessage" {
					in.setField(st, ctx, "Casio", boolConst(true))
				}
			}
			for _, t := range in.decodeTrack(st, prep, d.segs) {
				if in.errNil(t.st, t.err) != 1 {
					out = append(out, decoded{t.st, t.err, nil, nil})
					continue
				}
				if !t.ok {
					panic(stop{"track result: " + t.why})
				}
				if len(t.evs) != 1 {
					if w, why := in.witness(t.st, &SeqV{d.segs}); w != "" {
						panic(trackLen{fmt.Sprintf("%d events decoded from one %s event %s", len(t.evs), k.Name, w)})
					} else {
						panic(stop{why})
					}
				}
				out = append(out, t.evs[0])
			}
			return out
		}},
	}
}

type trackLen struct{ s string }

func (in *Interp) setField(st *State, p *PtrV, name string, v Val) {
	sv, ok := in.load(st, p, nil).(*StructV)
	if !ok {
		panic(stop{"no struct"})
	}
	t := sv.T.Underlying().(*types.Struct)
	for i := 0; i < t.NumFields(); i++ {
		if t.Field(i).Name() == name {
			f := append([]Val{}, sv.F...)
			f[i] = v
			in.store(st, p, &StructV{sv.T, f})
			return
		}
	}
	panic(stop{"no field " + name})
}

func (k *Kind) lens() []int {
	if k.N >= 0 {
		return []int{0}
	}
	return []int{1, 2, 3, 4}
}

func init() {
	register(&Check{ID: "C01", Shard: true,
		Rule: "For each of the 28 event kinds, each delta length (1-4 bytes), each length-of-length (1-4 bytes) and each decoder (the kind's own, the event dispatcher, the track decoder), the decoder is interpreted abstractly over bit-provenance values on symbolic well formed bytes; every resulting path must succeed, give the right kind, and give field expressions identical to those the format prescribes.",
		Run:  runC01})
}

func runC01(c *Ctx) {
	for _, k := range kinds {
		for _, e := range decEntries() {
			for dn := 1; dn <= 4; dn++ {
				for _, ln := range k.lens() {
					if c.Tier == "quick" && k.N < 0 && (e.name != "own") && !(dn == 1 || ln == 1) {
						continue
					}
					key := fmt.Sprintf("%s/%s", k.Name, e.name)
					in := c.interp()
					in.noMerge = true
					in.cap = 600
					c.decodeCase(key, in, k, e, dn, ln)
				}
			}
		}
	}
}

func (c *Ctx) decodeCase(key string, in *Interp, k *Kind, e decEntry, dn, ln int) {
	c.guard(key, in, func() {
		defer func() {
			if r := recover(); r != nil {
				if t, ok := r.(trackLen); ok {
					c.Fail(key+":events", "", t.s)
					return
				}
				panic(r)
			}
		}()
		st0 := c.freshState(in)
		d := k.build(in, st0, dn, ln)
		show := &SeqV{d.segs}
		for _, st := range k.cases(in, st0, d) {
			outs := e.run(in, st, k, d)
			for _, x := range outs {
				switch in.errNil(x.st, x.err) {
				case 1:
					c.checkFields(key, in, d, k, x, show)
				case 0:
					if w, why := in.witness(x.st, show); w != "" {
						c.Fail(key+":accepted", "", fmt.Sprintf("well formed %s event rejected (%s) %s", k.Name, in.errDesc(x.err), w), x.st.pathString()...)
					} else {
						c.Undecided(key+":accepted", "", "possible rejection of a well formed event: "+why+" "+in.errDesc(x.err))
					}
				default:
					c.Undecided(key+":accepted", "", "error result unknown")
				}
			}
		}
		c.counts["unmodelled calls"] += len(in.unmod)
	})
}
