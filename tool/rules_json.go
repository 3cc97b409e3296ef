package main

import (
	"fmt"
	"go/types"
	"strings"
)

// midiFile: a file with the tracks; the division is metrical time, everything else of the header is free
func midiFile(in *Interp, st *State, tracks [][]*evInput) func(st *State) []Seg {
	f := midiFileOf(in, st, tracks)
	return func(st *State) []Seg { return f(st, tracks) }
}

// midiFileOf: the file, as a function of the tracks after the header
func midiFileOf(in *Interp, st *State, tracks [][]*evInput) func(st *State, tracks [][]*evInput) []Seg {
	format := newAtom("format", 8, false)
	st.setRange(format, 0, 2)
	for b := 2; b < 8; b++ {
		st.setBit(Bit{format, b}, 0)
	}
	hi, lo := byteAtom("division0"), byteAtom("division1")
	st.setBit(Bit{hi.L.T[0].A, 7}, 0)
	pinNum(st, numAtom(format, 8, false))
	pinNum(st, hi)
	pinNum(st, lo)
	n := len(tracks)
	f := strToElems([]Seg{&SegLit{"MThd\x00\x00\x00\x06\x00"}})
	f = append(f, &SegElem{numAtom(format, 8, false)}, &SegElem{numConst(int64(n>>8), 8, false)}, &SegElem{numConst(int64(n&255), 8, false)}, &SegElem{hi}, &SegElem{lo})
	return func(st *State, tracks [][]*evInput) []Seg {
		f := append([]Seg{}, f...)
		for _, t := range tracks {
			f = append(f, strToElems([]Seg{&SegLit{"MTrk"}})...)
			f = append(f, be32(in, st, st.resolveLin(seqLen(allSegs(t))))...)
			f = append(f, allSegs(t)...)
		}
		return f
	}
}

type smfState struct {
	st  *State
	smf *PtrV
}

// loadFile decodes the file; paths on which it is rejected are for C01 and C11
func (in *Interp) loadFile(st *State, file []Seg) []smfState {
	var out []smfState
	for _, o := range in.decodeFile(st, in.bytesReader(st, file)) {
		if in.errNil(o.st, o.ret[1]) != 1 {
			continue
		}
		if p, ok := o.ret[0].(*PtrV); ok && p.Obj != 0 {
			out = append(out, smfState{o.st, p})
		}
	}
	return out
}

// viaWriter calls a method (.., io.Writer) error and gives what was written
func (in *Interp) newBuffer(st *State) (*PtrV, Val) {
	bt := in.P.extType("bytes", "Buffer")
	if bt == nil {
		panic(stop{"bytes.Buffer not loaded"})
	}
	w := &PtrV{Obj: st.alloc(&BufObj{})}
	return w, &IfaceV{types.NewPointer(bt), w}
}

// exportJSON runs the export operation
func (in *Interp) exportJSON(st *State, smf *PtrV) []encoded {
	ne := in.P.fn("ops/export", "NewExport")
	t := in.P.typ("ops/export", "Export")
	if ne == nil || t == nil {
		panic(stop{"no export operation"})
	}
	fn := in.P.method(t, "Export")
	var out []encoded
	for _, o := range in.execFn(ne, nil, nil, st, nil) {
		w, wi := in.newBuffer(o.st)
		for _, r := range in.execFn(fn, []Val{o.ret[0], smf, wi}, nil, o.st, nil) {
			if r.st.dead {
				continue
			}
			b, ok := in.load(r.st, w, nil).(*BufObj)
			if !ok {
				panic(stop{"buffer lost"})
			}
			out = append(out, encoded{r.st, &SeqV{b.S}, r.ret[0]})
		}
	}
	return out
}

// assemble runs an assembler on the text
func (in *Interp) assemble(st *State, which string, text []Seg) []encoded {
	na := in.P.fn("ops/assemble", "New"+which)
	t := in.P.typ("ops/assemble", which)
	if na == nil || t == nil {
		panic(stop{"no " + which})
	}
	fn := in.P.method(t, "Assemble")
	var out []encoded
	for _, o := range in.execFn(na, nil, nil, st, nil) {
		for _, r := range in.callMethod(o.st, fn, o.ret[0], []Val{in.bytesReader(o.st, text)}) {
			tv, ok := r.val.(*TupleV)
			if !ok {
				panic(stop{"Assemble result"})
			}
			out = append(out, encoded{r.st, tv.V[0], tv.V[1]})
		}
	}
	return out
}

// trackShapes: the tracks of the round-trip files: each kind before an EndOfTrack, and the sequences the assemblers treat specially
func trackShapes() map[string][]string {
	m := map[string][]string{}
	for _, k := range kinds {
		switch k.Name {
		case "EndOfTrack":
			m["EndOfTrack"] = []string{"EndOfTrack"}
		case "SysExContinuationMessage":
			m["SysEx in 2 packets"] = []string{"SysExMessage", k.Name, "EndOfTrack"}
			m["SysEx in 3 packets"] = []string{"SysExMessage", k.Name, k.Name, "EndOfTrack"}
		default:
			m[k.Name] = []string{k.Name, "EndOfTrack"}
		}
	}
	m["two notes"] = []string{"NoteOn", "NoteOff", "EndOfTrack"}
	m["notes and text"] = []string{"NoteOn", "Text", "NoteOn", "EndOfTrack"}
	m["SysEx then escape"] = []string{"SysExMessage", "SysExEscapeMessage", "EndOfTrack"}
	m["bank select"] = []string{"Controller", "Controller", "ProgramChange", "EndOfTrack"}
	m["two SysEx"] = []string{"SysExMessage", "SysExMessage", "EndOfTrack"}
	return m
}

// sysexClosed: in the state every multi-packet message is terminated, and the terminator is not inside one
func sysexClosed(s *State, evs []*evInput) bool {
	open := false
	for _, e := range evs {
		switch e.k.Name {
		case "SysExMessage", "SysExContinuationMessage":
			open = s.evalCond(e.endCond(s)) != 1
		default:
			if open {
				return false
			}
		}
	}
	return !open
}

func init() {
	register(&Check{ID: "C04", Shard: true,
		Rule: "For each of the 28 kinds with symbolic contents: the decoded event is marshalled to JSON and unmarshalled again (encoding/json modelled on the tree of keys and values; the repository's own MarshalJSON/UnmarshalJSON methods interpreted), and the result must be of the same kind with the same field expressions, delta and binary encoding; and for symbolic files of one and two tracks, export followed by the JSON assembler must give back the bytes of the file.",
		Run:  runC04})
}

// jsonEvent: kinds as JSON carries them
func jsonFieldsOf(k *Kind) *Kind {
	n := *k
	f := k.Fields
	n.Fields = func(in *Interp, st *State, d *evInput) []fieldExp {
		var out []fieldExp
		for _, x := range f(in, st, d) {
			if x.path == "End" { // restored by the assembler from the event that follows
				continue
			}
			out = append(out, x)
		}
		return out
	}
	return &n
}

func runC04(c *Ctx) {
	evT := c.P.typ("midi/events", "Event")
	for _, k := range kinds {
		k := k
		for _, ln := range k.lens() {
			if ln > 2 {
				continue
			}
			for dn := 1; dn <= 4; dn++ {
				if dn > 1 && ln > 1 {
					continue
				}
				key := k.Name + "/event"
				in := c.trackInterp()
				c.guard(key, in, func() {
					st0 := c.freshState(in)
					d := k.build(in, st0, dn, ln)
					minimal(st0, d.delta.L, dn)
					if k.N < 0 {
						minimal(st0, d.payN, ln)
					}
					show := &SeqV{d.segs}
					where := c.posOf(k.typ(c.P))
					for _, st := range k.cases(in, st0, d) {
						for _, t := range in.decodeTrack(st, in.casio(k.Name == "SysExContinuationMessage"), d.segs) {
							if in.errNil(t.st, t.err) != 1 || !t.ok || len(t.evs) != 1 {
								continue
							}
							x := t.evs[0]
							ev := in.zero(t.st, evT).(*StructV)
							ev = setIndex(ev, []int{0}, &IfaceV{x.t, x.val}).(*StructV)
							cc := &callCtx{in: in, st: t.st}
							js, ok := cc.jmarshal(&IfaceV{types.NewPointer(evT), &PtrV{Obj: t.st.alloc(ev)}})
							if !ok {
								c.Undecided(key+":marshal", where, fmt.Sprint(in.unmod))
								continue
							}
							for _, j := range js {
								if j.err != nil {
									c.accepted(key+":marshal", in, j.st, j.err, k.Name, show)
									continue
								}
								for _, y := range in.decodeEvent(j.st, "UnmarshalJSON", in.jsonBytes(j.st, j.node)) {
									if !c.accepted(key, in, y.st, y.err, k.Name+" from its own JSON", show) {
										continue
									}
									c.checkFields(key, in, d, jsonFieldsOf(k), y, show)
									if k.Name == "SysExContinuationMessage" || y.t == nil {
										continue
									}
									for _, z := range in.encodeOwn(y.st, y.t, y.val) {
										c.expectBytes(key, in, z, d.body, where, k.Name+" from its own JSON", show)
									}
								}
							}
						}
					}
				})
			}
		}
	}
	c.fileTrips(func(in *Interp, key string, s smfState, file func(st *State) []Seg, show Val) {
		for _, j := range in.exportJSON(s.st, s.smf) {
			if !c.accepted(key+": export", in, j.st, j.err, "export", show) {
				continue
			}
			for _, a := range in.assemble(j.st, "JSONAssembler", j.bytes.(*SeqV).S) {
				c.expectBytes(key, in, a, file(a.st), "", "exported and assembled file", show)
			}
		}
	}, nil)
}

// fileTrips runs a round trip on symbolic files
func (c *Ctx) fileTrips(trip func(in *Interp, key string, s smfState, file func(st *State) []Seg, show Val), restrict func(in *Interp, st *State, evs []*evInput)) {
	one := func(key string, shapes ...[]string) {
		if c.onlyShape != nil && !c.onlyShape(key) {
			return
		}
		in := c.trackInterp()
		c.guard(key, in, func() {
			st0 := c.freshState(in)
			var tracks [][]*evInput
			var evs []*evInput
			for _, sh := range shapes {
				var t []*evInput
				for _, n := range sh {
					dn := 1
					if n == "EndOfTrack" {
						dn = 2
					}
					if strings.HasSuffix(n, "@4") {
						n, dn = strings.TrimSuffix(n, "@4"), 4
					}
					d := kindNamed(n).build(in, st0, dn, 1)
					minimal(st0, d.delta.L, dn)
					t = append(t, d)
				}
				if key == "file/bank select" { // the two halves of the bank number, on one channel
					for i, e := range t[:3] {
						for b := 0; b < 4; b++ {
							st0.setBit(Bit{e.status.L.T[0].A, b}, 0x5>>uint(b)&1)
						}
						for b := 0; b < 8 && i < 2; b++ {
							st0.setBit(Bit{e.data[0].L.T[0].A, b}, []int{0, 0x20}[i]>>uint(b)&1)
						}
					}
				} else if len(t) > 2 || len(shapes) > 1 {
					fixFirst(st0, t...)
				}
				tracks = append(tracks, t)
				evs = append(evs, t...)
			}
			if restrict != nil {
				restrict(in, st0, evs)
			}
			if st0.dead {
				return
			}
			for _, st := range seqStates(in, st0, evs, false) {
				ok := true
				for _, t := range tracks {
					ok = ok && sysexClosed(st, t)
				}
				if !ok {
					continue
				}
				fileOf := midiFileOf(in, st, tracks)
				file := func(st *State) []Seg { return fileOf(st, tracks) }
				c.tracks, c.fileOf = tracks, fileOf
				show := &SeqV{file(st)}
				in.show = []Val{show}
				for _, s := range in.loadFile(st, file(st)) {
					trip(in, key, s, file, show)
				}
				c.panics(key, in)
			}
			c.counts["unmodelled calls"] += len(in.unmod)
			if len(in.unmod) > 0 && verbose {
				fmt.Println(key, in.unmod)
			}
		})
	}
	shapes := trackShapes()
	for _, n := range sortedKeys(shapes) {
		one("file/"+n, shapes[n])
	}
	one("file/two tracks", []string{"Tempo", "EndOfTrack"}, []string{"NoteOn", "EndOfTrack"})
	one("file/long deltas", []string{"NoteOff@4", "Text@4", "EndOfTrack@4"})
	one("file/long delta", []string{"NoteOn@4", "EndOfTrack@4"})
	one("file/no events", []string{})
	one("file/no tracks")
}
