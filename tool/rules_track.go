package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// u64 widens a 32 bit number
func u64(st *State, n *Num) *Num { return numConv(st, n, 64, false) }

func sumTicks(st *State, evs []*evInput) *Num {
	t := numConst(0, 64, false)
	for _, e := range evs {
		t = numBin(st, "+", t, u64(st, e.delta))
	}
	return t
}

func allSegs(evs []*evInput) []Seg {
	var s []Seg
	for _, e := range evs {
		s = append(s, e.segs...)
	}
	return s
}

// rejected judges a result that has to be an error
func (c *Ctx) rejected(key string, in *Interp, st *State, err Val, what string, show Val) {
	switch in.errNil(st, err) {
	case 0:
		c.Pass(key, in.errDesc(err))
	case 1:
		if w, why := in.witness(st, show); w != "" {
			c.Fail(key, "", fmt.Sprintf("accepted although %s: %s", what, w), st.pathString()...)
		} else {
			c.Undecided(key, "", "possibly accepted: "+why)
		}
	default:
		c.Undecided(key, "", "error result unknown")
	}
}

// accepted judges a result that has to be a success
func (c *Ctx) accepted(key string, in *Interp, st *State, err Val, what string, show Val) bool {
	switch in.errNil(st, err) {
	case 1:
		return true
	case 0:
		if w, why := in.witness(st, show); w != "" {
			c.Fail(key+":accepted", "", fmt.Sprintf("%s rejected (%s) %s", what, in.errDesc(err), w), st.pathString()...)
		} else {
			c.Undecided(key+":accepted", "", "possible rejection: "+why+" "+in.errDesc(err)+" "+strings.Join(st.pathString(), "; "))
		}
	default:
		c.Undecided(key+":accepted", "", "error result unknown")
	}
	return false
}

// sameVal compares and records
func (c *Ctx) sameVal(key, where, what string, in *Interp, st *State, got, want Val, show Val) {
	switch ok, why := in.same(st, got, want, show); ok {
	case 1:
		c.Pass(key, vstr(in.resolveVal(st, got)))
	case 0:
		c.Fail(key, where, what+" "+why, st.pathString()...)
	default:
		c.Undecided(key, where, what+" "+why)
	}
}

// hasEvents judges the number of events of a track
func (c *Ctx) hasEvents(key string, in *Interp, t track, n int, show Val) bool {
	if !t.ok {
		c.Undecided(key+":events", "", t.why)
		return false
	}
	if len(t.evs) != n {
		if w, why := in.witness(t.st, show); w != "" {
			c.Fail(key+":events", "", fmt.Sprintf("%d events decoded from %d: %s", len(t.evs), n, w), t.st.pathString()...)
		} else {
			c.Undecided(key+":events", "", why)
		}
		return false
	}
	c.Pass(key+":events", "")
	return true
}

func kindNamed(n string) *Kind {
	for _, k := range kinds {
		if k.Name == n {
			return k
		}
	}
	return nil
}

func (c *Ctx) kindHas(k *Kind) bool { return k.typ(c.P) != nil }

// endByte: the condition that a system exclusive payload ends with F7
func (d *evInput) endCond(st *State) *Cond {
	end := elemNum(st, d.root, intLin(linAddK(d.payN, 1, linConst(-1))), 8, false)
	return &Cond{Kind: 'e', L: linAddK(end.L, 1, linConst(-0xf7))}
}

// pairStates: the states in which the event sequence is well formed, given whether a multi-packet message is under way
func seqStates(in *Interp, st0 *State, evs []*evInput, casio bool) []*State {
	states := []*State{st0}
	for _, e := range evs {
		var nx []*State
		for _, s := range states {
			nx = append(nx, e.k.cases(in, s, e)...)
		}
		states = nx
	}
	var out []*State
	for _, s := range states {
		open := casio
		ok := true
		for _, e := range evs {
			switch e.k.Name {
			case "SysExMessage":
				if open {
					ok = false
				}
				open = s.evalCond(e.endCond(s)) != 1
			case "SysExContinuationMessage":
				if !open {
					ok = false
				}
				if s.evalCond(e.endCond(s)) == 1 {
					open = false
				}
			case "SysExEscapeMessage":
				if open {
					ok = false
				}
			}
		}
		if ok {
			out = append(out, s)
		}
	}
	return out
}

func init() {
	register(&Check{ID: "C14", Shard: true,
		Rule: "For every ordered pair of event kinds with symbolic contents, and for chains of up to 20 events with free 28-bit deltas, the track decoder is interpreted abstractly: the resulting list must hold exactly those events, in order, each with its own field values, and the tick of each must be the expression sum of the deltas up to it.",
		Run:  runC14})
	register(&Check{ID: "C12", Shard: true,
		Rule: "Symbolic tracks with events that omit their status byte: after each channel kind (status with a free channel) one and two such events must decode to that kind, status and channel with their own data bytes; with other channel events in between the closest one counts; after any meta or system-exclusive event, or with no event before, the track must be rejected.",
		Run:  runC12})
	register(&Check{ID: "C13", Shard: true,
		Rule: "Symbolic tracks of two (all ordered pairs of kinds) and three events are decoded and encoded again; on every path the event bytes written must be, for each event, its full bytes or its bytes without status where the path condition implies that it is a channel event with the status of the event before it; the chunk length must be the number of bytes after it.",
		Run:  runC13})
	register(&Check{ID: "C18", Shard: true,
		Rule: "Symbolic tracks of bank-select controllers (MSB, LSB, in every order and multiplicity up to three) on free channels, any other event (28 kinds, controller numbers other than 0 and 32), and a program change: the bank of the program change must be the prescribed 14-bit expression of the latest MSB and LSB values on its own channel.",
		Run:  runC18})
	register(&Check{ID: "C11", Shard: true,
		Rule: "MThd decoding over 14 free bytes (each field expression, and each class of malformed header rejected), MThd encoding, the file encoder over 0-3 tracks (bytes written to the writer are header then each track's chunk, in order) and a wrong track count rejected, the track length field against the number of event bytes written, the file decoder over 0-3 track chunks and unknown chunks with symbolic contents.",
		Run:  runC11})
}

func (c *Ctx) trackInterp() *Interp {
	in := c.interp()
	in.noMerge = true
	in.cap = 600
	return in
}

func (in *Interp) casio(on bool) func(st *State, ctx *PtrV) {
	if !on {
		return nil
	}
	return func(st *State, ctx *PtrV) { in.setField(st, ctx, "Casio", boolConst(true)) }
}

func runC14(c *Ctx) {
	one := func(key string, ks []*Kind, dn int) {
		in := c.trackInterp()
		c.guard(key, in, func() {
			st0 := c.freshState(in)
			var evs []*evInput
			casio := false
			for i, k := range ks {
				if k.Name == "SysExContinuationMessage" && (i == 0 || ks[0].Class != clsSysex) {
					casio = true
				}
				evs = append(evs, k.build(in, st0, dn, 1))
			}
			fixFirst(st0, evs...)
			show := &SeqV{allSegs(evs)}
			for _, st := range seqStates(in, st0, evs, casio) {
				for _, t := range in.decodeTrack(st, in.casio(casio), allSegs(evs)) {
					if !c.accepted(key, in, t.st, t.err, "well formed track", show) || !c.hasEvents(key, in, t, len(evs), show) {
						continue
					}
					for i, e := range evs {
						x := t.evs[i]
						x.st = t.st
						if e.k.Name == "ProgramChange" {
							// the bank is judged by C18
							k := *e.k
							k.Fields = func(in *Interp, st *State, d *evInput) []fieldExp {
								return channelFields(in, st, d, fieldExp{"Program", d.data[0]})
							}
							c.checkFields(fmt.Sprintf("%s/%d", key, i+1), in, e, &k, x, show, fieldExp{"Tick()", sumTicks(t.st, evs[:i+1])})
							continue
						}
						c.checkFields(fmt.Sprintf("%s/%d", key, i+1), in, e, e.k, x, show, fieldExp{"Tick()", sumTicks(t.st, evs[:i+1])})
					}
				}
			}
		})
	}
	for _, a := range kinds {
		for _, b := range kinds {
			one(a.Name+" "+b.Name, []*Kind{a, b}, 1+(len(a.Name)+len(b.Name))%4)
		}
	}
	for _, k := range kinds {
		if k.Class == clsSysex || k.N < 0 {
			continue
		}
		var l []*Kind
		for i := 0; i < 20; i++ {
			l = append(l, k)
		}
		if k.N <= 1 && k.Name != "KeySignature" {
			one("20 x "+k.Name, l, 4)
		}
	}
}

// fixFirst gives the note or controller number of an event a value, so that the tables looked up by it do not fork the analysis
func fixFirst(st *State, evs ...*evInput) {
	for i, e := range evs {
		switch e.k.Name {
		case "NoteOn", "NoteOff", "Controller":
			v := 0x3c + i
			for b := 0; b < 8; b++ {
				st.setBit(Bit{e.data[0].L.T[0].A, b}, v>>uint(b)&1)
			}
		case "KeySignature":
			st.assumeEQ(linAddK(numConv(st, e.data[0], 8, true).L, 1, linConst(int64(3-i))))
			maxByte(st, e.data[1], 0)
		case "SequencerSpecificEvent", "SysExMessage":
			st.assumeEQ(linAddK(e.payElem(st, 0).L, 1, linConst(-0x41)))
		}
	}
}

// running makes an event without status byte, with the status of another
func running(in *Interp, st *State, of *evInput, name string) *evInput {
	d := &evInput{k: of.k, status: of.status}
	var ds []Seg
	ds, d.delta = in.vlqBytes(st, name+".delta", 1)
	for i := 0; i < of.k.N; i++ {
		b := byteAtom(fmt.Sprintf("%s.data%d", name, i))
		st.setBit(Bit{b.L.T[0].A, 7}, 0)
		d.data = append(d.data, b)
		d.pay = append(d.pay, &SegElem{b})
	}
	d.body = d.pay
	d.segs = append(ds, d.pay...)
	return d
}

func noBank(k *Kind) *Kind {
	if k.Name != "ProgramChange" {
		return k
	}
	n := *k
	n.Fields = func(in *Interp, st *State, d *evInput) []fieldExp {
		return channelFields(in, st, d, fieldExp{"Program", d.data[0]})
	}
	return &n
}

func runC12(c *Ctx) {
	good := func(key string, mk func(in *Interp, st *State) []*evInput) {
		in := c.trackInterp()
		c.guard(key, in, func() {
			st := c.freshState(in)
			evs := mk(in, st)
			fixFirst(st, evs...)
			show := &SeqV{allSegs(evs)}
			for _, t := range in.decodeTrack(st, nil, allSegs(evs)) {
				if !c.accepted(key, in, t.st, t.err, "well formed track", show) || !c.hasEvents(key, in, t, len(evs), show) {
					continue
				}
				for i, e := range evs {
					x := t.evs[i]
					x.st = t.st
					c.checkFields(fmt.Sprintf("%s/%d", key, i+1), in, e, noBank(e.k), x, show)
				}
			}
		})
	}
	bad := func(key, what string, mk func(in *Interp, st *State) ([]Seg, []*State)) {
		in := c.trackInterp()
		c.guard(key, in, func() {
			st := c.freshState(in)
			segs, states := mk(in, st)
			for _, s := range states {
				for _, t := range in.decodeTrack(s, nil, segs) {
					c.rejected(key, in, t.st, t.err, what, &SeqV{segs})
				}
			}
		})
	}
	var midi []*Kind
	for _, k := range kinds {
		if k.Class == clsMidi {
			midi = append(midi, k)
		}
	}
	for _, k := range midi {
		good(k.Name+": repeated", func(in *Interp, st *State) []*evInput {
			e := k.build(in, st, 1, 1)
			return []*evInput{e, running(in, st, e, "second"), running(in, st, e, "third")}
		})
		for _, m := range midi {
			good(k.Name+" "+m.Name+": closest", func(in *Interp, st *State) []*evInput {
				e := k.build(in, st, 1, 1)
				f := m.build(in, st, 1, 1)
				return []*evInput{e, f, running(in, st, f, "third")}
			})
			good(k.Name+" "+m.Name+": closest after running", func(in *Interp, st *State) []*evInput {
				e := k.build(in, st, 1, 1)
				f := m.build(in, st, 1, 1)
				return []*evInput{e, running(in, st, e, "second"), f, running(in, st, f, "fourth")}
			})
		}
		for _, m := range kinds {
			if m.Class == clsMidi || m.Name == "SysExContinuationMessage" {
				continue
			}
			bad(k.Name+" "+m.Name+": cancelled", m.Name+" cancels running status", func(in *Interp, st *State) ([]Seg, []*State) {
				e := k.build(in, st, 1, 1)
				f := m.build(in, st, 1, 1)
				r := running(in, st, e, "third")
				fixFirst(st, e, f, r)
				return allSegs([]*evInput{e, f, r}), m.cases(in, st, f)
			})
		}
	}
	for _, m := range kinds {
		if m.Class == clsMidi || m.Name == "SysExContinuationMessage" {
			continue
		}
		bad(m.Name+": none in effect", "no status precedes", func(in *Interp, st *State) ([]Seg, []*State) {
			f := m.build(in, st, 1, 1)
			b := byteAtom("data")
			maxByte(st, b, 127)
			ds, _ := in.vlqBytes(st, "delta", 1)
			rest := newSeqAtom("rest", byteT)
			return append(append(append([]Seg{}, f.segs...), ds...), &SegElem{b}, &SegSpan{rest, linConst(0), rest.Len.L}), m.cases(in, st, f)
		})
	}
	bad("first: none in effect", "no status precedes", func(in *Interp, st *State) ([]Seg, []*State) {
		b := byteAtom("data")
		maxByte(st, b, 127)
		ds, _ := in.vlqBytes(st, "delta", 1)
		rest := newSeqAtom("rest", byteT)
		return append(append([]Seg{}, ds...), &SegElem{b}, &SegSpan{rest, linConst(0), rest.Len.L}), []*State{st}
	})
}

func runC13(c *Ctx) {
	one := func(key string, ks []*Kind) {
		var free []int
		for i := 1; i < len(ks); i++ {
			if ks[i].Class == clsMidi && ks[i-1].Class == clsMidi && ks[i].Status == ks[i-1].Status {
				free = append(free, i)
			}
		}
		for mask := 0; mask < 1<<uint(len(free)); mask++ {
			in := c.trackInterp()
			c.guard(key, in, func() {
				st0 := c.freshState(in)
				var evs []*evInput
				casio := false
				eq := make([]bool, len(ks))
				for i, k := range ks {
					if k.Name == "SysExContinuationMessage" && (i == 0 || ks[0].Class != clsSysex) {
						casio = true
					}
					e := k.build(in, st0, 1, 1)
					for j, x := range free {
						if x != i {
							continue
						}
						if mask>>uint(j)&1 == 1 { // the status of the event before
							eq[i] = true
							nd := len(e.segs) - len(e.body)
							e.status = evs[i-1].status
							e.body = append([]Seg{&SegElem{e.status}}, e.body[1:]...)
							e.segs = append(append([]Seg{}, e.segs[:nd]...), e.body...)
						} else {
							st0.assumeNE(linSub(e.status.L, evs[i-1].status.L))
						}
					}
					evs = append(evs, e)
				}
				fixFirst(st0, evs...)
				show := &SeqV{allSegs(evs)}
				// the allowed forms
				cands := [][]Seg{nil}
				for i, e := range evs {
					var nx [][]Seg
					for _, p := range cands {
						nx = append(nx, append(append([]Seg{}, p...), e.segs...))
					}
					if eq[i] {
						nd := len(e.segs) - len(e.body)
						short := append(append([]Seg{}, e.segs[:nd]...), e.body[1:]...)
						for _, p := range cands {
							nx = append(nx, append(append([]Seg{}, p...), short...))
						}
					}
					cands = nx
				}
				for _, st := range seqStates(in, st0, evs, casio) {
					for _, t := range in.decodeTrack(st, in.casio(casio), allSegs(evs)) {
						if in.errNil(t.st, t.err) != 1 {
							continue // C14
						}
						for _, y := range in.encodeTrack(t.st, in.load(t.st, t.mtrk, nil)) {
							if !c.accepted(key, in, y.st, y.err, "encoding", show) {
								continue
							}
							best, worst, why := -2, 2, ""
							for _, cd := range cands {
								want := append(strToElems([]Seg{&SegLit{"MTrk"}}), be32(in, y.st, seqLen(cd))...)
								want = append(want, cd...)
								ok, w := in.same(y.st, y.bytes, &SeqV{in.normSegs(y.st, strToElems(want))}, show)
								best = max(best, ok)
								if ok < worst || why == "" {
									worst, why = ok, w
								}
								if ok == 1 {
									break
								}
							}
							switch {
							case best == 1:
								c.Pass(key, vstr(in.resolveVal(y.st, y.bytes)))
							case worst == 0:
								c.Fail(key, "", "event bytes written: "+why, y.st.pathString()...)
							default:
								c.Undecided(key, "", why)
							}
						}
					}
				}
			})
		}
	}
	for _, a := range kinds {
		for _, b := range kinds {
			one(a.Name+" "+b.Name, []*Kind{a, b})
		}
	}
	mix := []*Kind{kindNamed("NoteOn"), kindNamed("NoteOff"), kindNamed("Controller"), kindNamed("ProgramChange"), kindNamed("EndOfTrack"), kindNamed("Text"), kindNamed("SysExMessage")}
	for _, a := range mix {
		for _, b := range mix {
			for _, d := range mix[:2] {
				one(a.Name+" "+b.Name+" "+d.Name, []*Kind{a, b, d})
			}
		}
	}
	on := mix[0]
	one("4 x NoteOn", []*Kind{on, on, on, on})
	one("4 x NoteOff", []*Kind{mix[1], mix[1], mix[1], mix[1]})
}

func runC18(c *Ctx) {
	ctl, pc := kindNamed("Controller"), kindNamed("ProgramChange")
	setData := func(st *State, e *evInput, i int, v int64) {
		for b := 0; b < 8; b++ {
			st.setBit(Bit{e.data[i].L.T[0].A, b}, int(v>>uint(b))&1)
		}
	}
	one := func(key string, seq []string) {
		var banks []int
		for i, s := range seq {
			if s == "msb" || s == "lsb" {
				banks = append(banks, i)
			}
		}
		for mask := 0; mask < 1<<uint(len(banks)); mask++ {
			in := c.trackInterp()
			in.cap = 3000
			c.guard(key, in, func() {
				st0 := c.freshState(in)
				last := pc.build(in, st0, 1, 1)
				ch := numBin(st0, "&", last.status, numConst(15, 8, false))
				var evs []*evInput
				nb := 0
				msb, lsb := numConst(0, 16, false), numConst(0, 16, false)
				for _, s := range seq {
					var e *evInput
					switch s {
					case "msb", "lsb":
						e = ctl.build(in, st0, 1, 1)
						if s == "lsb" {
							setData(st0, e, 0, 32)
						} else {
							setData(st0, e, 0, 0)
						}
						if mask>>uint(nb)&1 == 1 { // on the channel of the program change
							e.status = numBin(st0, "|", ch, numConst(0xb0, 8, false))
							e.segs = append([]Seg{}, e.segs...)
							e.segs[len(e.segs)-3] = &SegElem{e.status}
							if v := numConv(st0, e.data[1], 16, false); s == "msb" {
								msb = v
							} else {
								lsb = v
							}
						} else {
							st0.assumeNE(linSub(numBin(st0, "&", e.status, numConst(15, 8, false)).L, ch.L))
						}
						nb++
					case "program":
						e = pc.build(in, st0, 1, 1)
					case "Controller":
						e = ctl.build(in, st0, 1, 1)
						st0.assumeNE(e.data[0].L)
						st0.assumeNE(linAddK(e.data[0].L, 1, linConst(-32)))
					default:
						e = kindNamed(s).build(in, st0, 1, 1)
						fixFirst(st0, e)
					}
					evs = append(evs, e)
				}
				evs = append(evs, last)
				show := &SeqV{allSegs(evs)}
				for _, st := range seqStates(in, st0, evs, false) {
					for _, t := range in.decodeTrack(st, nil, allSegs(evs)) {
						if !c.accepted(key, in, t.st, t.err, "well formed track", show) || !c.hasEvents(key, in, t, len(evs), show) {
							continue
						}
						want := numBin(t.st, "|", numShift(t.st, "<<", msb, 7), lsb)
						x := t.evs[len(evs)-1]
						for _, r := range in.field(t.st, x.val, x.t, "Bank") {
							c.sameVal(key, c.posOf(pc.typ(c.P)), "bank of the program change", in, r.st, r.val, want, show)
						}
					}
				}
			})
		}
	}
	one("none", nil)
	ab := []string{"msb", "lsb"}
	for _, a := range ab {
		one(a, []string{a})
		for _, b := range ab {
			one(a+" "+b, []string{a, b})
			one(a+" program "+b, []string{a, "program", b})
			for _, d := range ab {
				one(a+" "+b+" "+d, []string{a, b, d})
			}
		}
	}
	for _, k := range kinds {
		if k.Name == "SysExContinuationMessage" {
			continue
		}
		one("msb lsb "+k.Name, []string{"msb", "lsb", k.Name})
		one("msb "+k.Name+" lsb", []string{"msb", k.Name, "lsb"})
		one(k.Name, []string{k.Name})
	}
}

func runC11(c *Ctx) {
	mthd := c.P.typ("midi", "MThd")
	if mthd == nil {
		c.Undecided("MThd", "", "no MThd")
		return
	}
	where := c.posOf(mthd)
	hdr := func(st *State) ([]Seg, []*Num) {
		p, v := freeBytes("header", 6)
		maxByte(st, v[0], 0)
		maxByte(st, v[1], 2)
		return append(strToElems([]Seg{&SegLit{"MThd\x00\x00\x00\x06"}}), p...), v
	}
	be16 := func(st *State, a, b *Num) *Num { return numConv(st, cat8(st, a, b), 16, false) }
	type div struct {
		name string
		hi   int64 // 0: metrical
		fps  int64
		drop bool
	}
	divs := []div{{"metrical", 0, 0, false}, {"24 fps", 0xe8, 24, false}, {"25 fps", 0xe7, 25, false}, {"29 fps", 0xe3, 29, true}, {"30 fps", 0xe2, 30, false}}
	setDiv := func(st *State, v []*Num, d div) {
		if d.hi == 0 {
			maxByte(st, v[4], 127)
		} else {
			for b := 0; b < 8; b++ {
				st.setBit(Bit{v[4].L.T[0].A, b}, int(d.hi>>uint(b))&1)
			}
		}
	}
	hdrFields := func(st *State, v []*Num, d div) []fieldExp {
		dv := be16(st, v[4], v[5])
		f := []fieldExp{{"Tag", strOf([]Seg{&SegLit{"MThd"}})}, {"Length", numConst(6, 32, false)}, {"Format", be16(st, v[0], v[1])}, {"Tracks", be16(st, v[2], v[3])}, {"Division", dv},
			{"SMPTETimeCode", boolConst(d.hi != 0)}}
		if d.hi == 0 {
			f = append(f, fieldExp{"PPQN", dv})
		} else {
			f = append(f, fieldExp{"FPS", numConst(d.fps, 8, false)}, fieldExp{"SubFrames", numConv(st, v[5], 16, false)}, fieldExp{"DropFrame", boolConst(d.drop)})
		}
		return f
	}
	for _, d := range divs {
		key := "MThd " + d.name
		in := c.trackInterp()
		c.guard(key, in, func() {
			st := c.freshState(in)
			segs, v := hdr(st)
			setDiv(st, v, d)
			show := &SeqV{segs}
			for _, x := range in.decodeOwn(st, mthd, segs) {
				if !c.accepted(key, in, x.st, x.err, "well formed header", show) {
					continue
				}
				for _, f := range hdrFields(x.st, v, d) {
					for _, r := range in.field(x.st, x.val, mthd, f.path) {
						c.sameVal(key+":"+f.path, where, "MThd."+f.path, in, r.st, r.val, f.want, show)
					}
				}
				for _, y := range in.encodeOwn(x.st, mthd, x.val) {
					c.expectBytes(key+" encode", in, y, segs, where, "MThd", show)
				}
			}
		})
	}
	bad := func(label string, mk func(st *State) []Seg) {
		key := "MThd reject " + label
		in := c.trackInterp()
		c.guard(key, in, func() {
			st := c.freshState(in)
			segs := mk(st)
			show := &SeqV{segs}
			for _, x := range in.decodeOwn(st, mthd, segs) {
				c.rejected(key, in, x.st, x.err, label, show)
			}
			for _, o := range in.decodeFile(st, in.bytesReader(st, segs)) {
				c.rejected("file "+key, in, o.st, o.ret[1], label, show)
			}
		})
	}
	tag := "MThd"
	for i := 0; i < 4; i++ {
		bad(fmt.Sprintf("tag differs in character %d", i+1), func(st *State) []Seg {
			s, _ := hdr(st)
			b := byteAtom("tag")
			st.assumeNE(linAddK(b.L, 1, linConst(-int64(tag[i]))))
			s[i] = &SegElem{b}
			return s
		})
	}
	for i := 0; i < 4; i++ {
		bad(fmt.Sprintf("length is not 6 (byte %d)", i+1), func(st *State) []Seg {
			s, _ := hdr(st)
			b := byteAtom("length")
			k := int64(0)
			if i == 3 {
				k = 6
			}
			st.assumeNE(linAddK(b.L, 1, linConst(-k)))
			s[4+i] = &SegElem{b}
			return s
		})
	}
	bad("format above 2", func(st *State) []Seg {
		s, _ := hdr(st)
		b := byteAtom("format")
		st.assumeGE(linAddK(b.L, 1, linConst(-3)))
		s[9] = &SegElem{b}
		return s
	})
	bad("format above 255", func(st *State) []Seg {
		s, _ := hdr(st)
		b := byteAtom("format")
		st.assumeGE(linAddK(b.L, 1, linConst(-1)))
		s[8] = &SegElem{b}
		return s
	})
	bad("SMPTE division with an unknown rate", func(st *State) []Seg {
		s, v := hdr(st)
		st.assumeGE(linAddK(v[4].L, 1, linConst(-128)))
		for _, d := range divs[1:] {
			st.assumeNE(linAddK(v[4].L, 1, linConst(-d.hi)))
		}
		return s
	})
	for n := 0; n < 14; n++ {
		bad(fmt.Sprintf("%d bytes only", n), func(st *State) []Seg {
			s, _ := hdr(st)
			return s[:n]
		})
	}
	inOnly := func(label string, mk func(st *State) []Seg) {
		key := "MTrk reject " + label
		in := c.trackInterp()
		c.guard(key, in, func() {
			st := c.freshState(in)
			segs := mk(st)
			for _, t := range in.trackFrom(st, nil, in.newSlice(st, segs, byteT)) {
				c.rejected(key, in, t.st, t.err, label, &SeqV{segs})
			}
		})
	}
	for i := 0; i < 4; i++ {
		inOnly(fmt.Sprintf("tag differs in character %d", i+1), func(st *State) []Seg {
			s := strToElems([]Seg{&SegLit{"MTrk"}})
			b := byteAtom("tag")
			st.assumeNE(linAddK(b.L, 1, linConst(-int64("MTrk"[i]))))
			s[i] = &SegElem{b}
			return append(s, strToElems([]Seg{&SegLit{"\x00\x00\x00\x04\x00\xff\x2f\x00"}})...)
		})
	}
	for n := 0; n < 8; n++ {
		inOnly(fmt.Sprintf("%d bytes only", n), func(st *State) []Seg {
			return strToElems([]Seg{&SegLit{"MTrk\x00\x00\x00\x04"}})[:n]
		})
	}
	c.fileDecode(hdr)
	c.fileEncode()
	for _, kn := range []string{"Text", "SysExMessage", "SequencerSpecificEvent"} {
		for ln := 1; ln <= 4; ln++ {
			key := fmt.Sprintf("track length, %s of a %d byte length", kn, ln)
			in := c.trackInterp()
			c.guard(key, in, func() {
				st0 := c.freshState(in)
				evs := []*evInput{kindNamed("NoteOn").build(in, st0, 1, 1), kindNamed(kn).build(in, st0, 2, ln), kindNamed("EndOfTrack").build(in, st0, 1, 1)}
				minimal(st0, evs[1].delta.L, 2)
				minimal(st0, evs[1].payN, ln)
				fixFirst(st0, evs...)
				segs := allSegs(evs)
				show := &SeqV{segs}
				for _, st := range seqStates(in, st0, evs, false) {
					for _, t := range in.decodeTrack(st, nil, segs) {
						if !c.accepted(key, in, t.st, t.err, "well formed track", show) {
							continue
						}
						for _, y := range in.encodeTrack(t.st, in.load(t.st, t.mtrk, nil)) {
							want := append(strToElems([]Seg{&SegLit{"MTrk"}}), be32(in, y.st, seqLen(segs))...)
							c.expectBytes(key, in, y, append(want, segs...), "", "track", show)
						}
					}
				}
			})
		}
	}
}

// fileDecode: the file decoder hands each track chunk, whole and in order, to the track decoder with its number and a fresh context
func (c *Ctx) fileDecode(hdr func(st *State) ([]Seg, []*Num)) {
	mtrkT := c.P.typ("midi", "MTrk")
	type shape struct {
		name   string
		chunks []string
	}
	shapes := []shape{{"no tracks", nil}, {"1 track", []string{"t"}}, {"2 tracks", []string{"t", "t"}}, {"3 tracks", []string{"t", "t", "t"}}, {"unknown chunk between", []string{"t", "x", "t"}}, {"unknown chunk first", []string{"x", "t"}}, {"unknown chunk last", []string{"t", "x"}}}
	for _, sh := range shapes {
		for _, count := range []int{0, -1, 1, 256} {
			nt := 0
			for _, x := range sh.chunks {
				if x == "t" {
					nt++
				}
			}
			n := nt + count
			if n < 0 {
				continue
			}
			key := fmt.Sprintf("file of %s, header says %d", sh.name, n)
			in := c.trackInterp()
			c.guard(key, in, func() {
				st := c.freshState(in)
				h, _ := hdr(st)
				h[10] = &SegElem{numConst(int64(n>>8), 8, false)}
				h[11] = &SegElem{numConst(int64(n&255), 8, false)}
				h[12] = &SegElem{numConst(0, 8, false)}
				file := append([]Seg{}, h...)
				var bodies [][]Seg
				for i, x := range sh.chunks {
					tag := "MTrk"
					if x == "x" {
						tag = "XTrk"
					}
					ln := newAtom(fmt.Sprintf("chunk%d.length", i), 32, false)
					st.setRange(ln, 0, 1<<24)
					for b := 25; b < 32; b++ {
						st.setBit(Bit{ln, b}, 0)
					}
					r := newSeqAtom(fmt.Sprintf("chunk%d", i), byteT)
					body := append(strToElems([]Seg{&SegLit{tag}}), be32(in, st, linAtom(ln))...)
					body = append(body, &SegSpan{r, linConst(0), linAtom(ln)})
					file = append(file, body...)
					if x == "t" {
						bodies = append(bodies, body)
					}
				}
				show := &SeqV{file}
				in.hook = c.trackRecord()
				for _, o := range in.decodeFile(st, in.bytesReader(st, file)) {
					switch {
					case o.st.ghost["track error"] != nil:
						c.rejected(key+": track error", in, o.st, o.ret[1], "a track could not be decoded", show)
						continue
					case count != 0:
						c.rejected(key, in, o.st, o.ret[1], "the header says another number of tracks", show)
						continue
					}
					if !c.accepted(key, in, o.st, o.ret[1], "well formed file", show) {
						continue
					}
					p, ok := o.ret[0].(*PtrV)
					if !ok || p.Obj == 0 {
						c.Undecided(key, "", "no file")
						continue
					}
					smfT := c.P.typ("midi", "SMF")
					trs := in.field(o.st, in.load(o.st, p, nil), smfT, "Tracks")
					if len(trs) != 1 {
						c.Undecided(key, "", "no tracks")
						continue
					}
					s, ok := trs[0].val.(*SliceV)
					var els []Seg
					if ok && s.Obj != 0 {
						els = in.normSegs(o.st, in.sliceSegs(o.st, s))
					}
					if len(els) != nt {
						if w, why := in.witness(o.st, show); w != "" {
							c.Fail(key+":tracks", "", fmt.Sprintf("%d tracks instead of %d %s", len(els), nt, w))
						} else {
							c.Undecided(key+":tracks", "", why)
						}
						continue
					}
					c.Pass(key+":tracks", "")
					for i, g := range els {
						e, ok := g.(*SegElem)
						if !ok {
							c.Undecided(key, "", "track list "+segString(g))
							continue
						}
						tv := in.load(o.st, e.V.(*PtrV), nil)
						for _, r := range in.field(o.st, tv, mtrkT, "TrackNumber") {
							want := numConst(int64(i), 64, false)
							if g, ok := r.val.(*Num); ok {
								want = numConst(int64(i), g.W, g.Signed)
							}
							c.sameVal(key+":TrackNumber", "", "track number", in, r.st, r.val, want, show)
						}
						for _, r := range in.field(o.st, tv, mtrkT, "Bytes") {
							c.sameVal(key+":Bytes", "", "bytes handed to the track decoder", in, r.st, r.val, &SeqV{in.normSegs(o.st, bodies[i])}, show)
						}
					}
					// each track has a context of its own
					seen := map[int]bool{}
					for i, g := range els {
						tv := in.load(o.st, g.(*SegElem).V.(*PtrV), nil)
						for _, r := range in.field(o.st, tv, mtrkT, "Context") {
							cp, ok := r.val.(*PtrV)
							if !ok || cp.Obj == 0 {
								c.Undecided(key+":Context", "", "context "+vstr(r.val))
							} else if seen[int(cp.Obj)] {
								c.Fail(key+":Context", "", fmt.Sprintf("track %d shares its decoding context with an earlier track", i))
							} else {
								c.Pass(key+":Context", "")
								seen[int(cp.Obj)] = true
							}
						}
					}
				}
			})
		}
	}
}

// fileEncode: the file encoder writes the header and the tracks, in order
func (c *Ctx) fileEncode() {
	smfT, mthdT := c.P.typ("midi", "SMF"), c.P.typ("midi", "MThd")
	ne := c.P.fn("encoding/midi", "NewEncoder")
	bt := c.P.extType("bytes", "Buffer")
	if smfT == nil || ne == nil || bt == nil {
		c.Undecided("file encode", "", "no file encoder")
		return
	}
	for n := 0; n <= 3; n++ {
		for _, off := range []int{0, 1, -1, 256} {
			if n+off < 0 {
				continue
			}
			key := fmt.Sprintf("encode %d tracks, header says %d", n, n+off)
			in := c.trackInterp()
			c.guard(key, in, func() {
				st := c.freshState(in)
				p, v := freeBytes("header", 6)
				maxByte(st, v[0], 0)
				maxByte(st, v[1], 2)
				p[2] = &SegElem{numConst(int64((n+off)>>8), 8, false)}
				p[3] = &SegElem{numConst(int64((n+off)&255), 8, false)}
				maxByte(st, v[4], 127)
				h := append(strToElems([]Seg{&SegLit{"MThd\x00\x00\x00\x06"}}), p...)
				var evs []*evInput
				for _, kn := range []string{"Text", "NoteOn", "SequenceNumber"}[:n] {
					evs = append(evs, kindNamed(kn).build(in, st, 1, 1))
				}
				type ts struct {
					st *State
					hv *PtrV
					tr []Seg
				}
				var cur []ts
				for _, x := range in.decodeOwn(st, mthdT, h) {
					if in.errNil(x.st, x.err) == 1 {
						cur = append(cur, ts{x.st, &PtrV{Obj: x.st.alloc(x.val)}, nil})
					}
				}
				want := append([]Seg{}, h...)
				for _, d := range evs {
					want = append(want, strToElems([]Seg{&SegLit{"MTrk"}})...)
					want = append(want, be32(in, st, seqLen(d.segs))...)
					want = append(want, d.segs...)
					var nx []ts
					for _, q := range cur {
						for _, t := range in.decodeTrack(q.st, nil, d.segs) {
							if in.errNil(t.st, t.err) == 1 {
								nx = append(nx, ts{t.st, q.hv, append(append([]Seg{}, q.tr...), &SegElem{t.mtrk})})
							}
						}
					}
					cur = nx
				}
				show := &SeqV{want}
				for _, q := range cur {
					st := q.st
					ut := smfT.Underlying().(*types.Struct)
					f := append([]Val{}, in.zero(st, smfT).(*StructV).F...)
					for i := 0; i < ut.NumFields(); i++ {
						switch ut.Field(i).Name() {
						case "MThd":
							f[i] = q.hv
						case "Tracks":
							f[i] = in.newSlice(st, q.tr, ut.Field(i).Type().Underlying().(*types.Slice).Elem())
						}
					}
					smf := &StructV{smfT, f}
					w := &PtrV{Obj: st.alloc(&BufObj{})}
					for _, o := range in.execFn(ne, []Val{&IfaceV{types.NewPointer(bt), w}}, nil, st, nil) {
						e, ok := o.ret[0].(*IfaceV)
						if !ok {
							panic(stop{"encoder is not concrete"})
						}
						fn := in.P.methodOf(e.T, "Encode")
						for _, r := range in.execFn(fn, []Val{e.V, smf}, nil, o.st, nil) {
							if r.st.dead {
								continue
							}
							if off != 0 {
								c.rejected(key, in, r.st, r.ret[0], "the header says another number of tracks", show)
								continue
							}
							if !c.accepted(key, in, r.st, r.ret[0], "well formed file", show) {
								continue
							}
							b, ok := in.load(r.st, w, nil).(*BufObj)
							if !ok {
								c.Undecided(key, "", "buffer lost")
								continue
							}
							c.sameVal(key, c.P.pos(fn.Pos()), "bytes of the file", in, r.st, &SeqV{in.normSegs(r.st, strToElems(b.S))}, &SeqV{in.normSegs(r.st, strToElems(want))}, show)
						}
					}
				}
			})
		}
	}
}

// trackRecord replaces the track decoder by a recorder: it keeps the bytes it was given, or fails
func (c *Ctx) trackRecord() CallHook {
	t := c.P.typ("midi", "MTrk")
	un := c.P.method(t, "UnmarshalBinary")
	return func(in *Interp, st *State, fn *ssa.Function, args []Val) ([]callRes, bool) {
		if fn != un || len(args) != 2 {
			return nil, false
		}
		p, ok := args[0].(*PtrV)
		if !ok {
			return nil, false
		}
		s2 := st.clone()
		in.setField(st, p, "Bytes", args[1])
		s2.ghost["track error"] = boolConst(true)
		return []callRes{{st, noErr}, {s2, in.newErr("track")}}, true
	}
}
