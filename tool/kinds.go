package main

// The catalogue of event kinds: what the bytes of each kind mean. This is the specification the code is compared with;
// it is written from the SMF format and the documentation, not derived from the code.

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	clsMidi = iota
	clsMeta
	clsSysex
)

type Kind struct {
	Name   string // type name
	Tag    string // name used in listings and JSON
	Pkg    string
	Class  int
	Status int // status byte (high nibble for channel events)
	Meta   int
	N      int // data bytes; -1: variable
	MinN   int // variable: least data length of a well formed event
	Valid  func(in *Interp, st *State, d *evInput)
	Fields func(in *Interp, st *State, d *evInput) []fieldExp
}

type fieldExp struct {
	path string // field path, or Method()
	want Val
}

type evInput struct {
	k      *Kind
	label  string
	segs   []Seg  // the bytes
	body   []Seg  // without delta
	delta  *Num   // expected delta, 32 bits
	status *Num   // status byte
	data   []*Num // fixed data bytes
	pay    []Seg  // payload
	payN   *Lin
	root   *SeqAtom
	d0     *Num // first payload byte(s) where split off
}

func cat8(st *State, parts ...*Num) *Num {
	// concatenation of byte values, most significant first, as 32 bit number
	r := numConst(0, 32, false)
	for _, p := range parts {
		r = numBin(st, "|", numShift(st, "<<", r, 8), numConv(st, p, 32, false))
	}
	return r
}

// vlqBytes: n symbolic bytes of a variable length quantity and its value
func (in *Interp) vlqBytes(st *State, name string, n int) ([]Seg, *Num) {
	a := newAtom(name, 32, false)
	for i := 7 * n; i < 32; i++ {
		st.setBit(Bit{a, i}, 0)
	}
	st.setRange(a, 0, 1<<uint(7*n)-1)
	v := numAtom(a, 32, false)
	segs := []Seg{}
	for i := 0; i < n; i++ {
		b := numConv(st, numBin(st, "&", numShift(st, ">>", v, int64(7*(n-1-i))), numConst(0x7f, 32, false)), 8, false)
		if i < n-1 {
			b = numBin(st, "|", b, numConst(0x80, 8, false))
		}
		segs = append(segs, &SegElem{st.resolve(b)})
	}
	return segs, v
}

func byteAtom(name string) *Num { return numAtom(newAtom(name, 8, false), 8, false) }

// build makes the symbolic bytes of a well formed event of the kind with a dn byte delta and an ln byte length
func (k *Kind) build(in *Interp, st *State, dn, ln int) *evInput {
	d := &evInput{k: k, label: fmt.Sprintf("delta %d bytes", dn)}
	var ds []Seg
	ds, d.delta = in.vlqBytes(st, "delta", dn)
	switch k.Class {
	case clsMidi:
		a := newAtom("status", 8, false)
		for i := 4; i < 8; i++ {
			st.setBit(Bit{a, i}, k.Status>>uint(i)&1)
		}
		d.status = numAtom(a, 8, false)
		d.body = []Seg{&SegElem{d.status}}
	case clsMeta:
		d.status = numConst(0xff, 8, false)
		d.body = []Seg{&SegElem{d.status}, &SegElem{numConst(int64(k.Meta), 8, false)}}
	case clsSysex:
		d.status = numConst(int64(k.Status), 8, false)
		d.body = []Seg{&SegElem{d.status}}
	}
	if k.N >= 0 {
		if k.Class != clsMidi {
			d.body = append(d.body, &SegElem{numConst(int64(k.N), 8, false)})
		}
		for i := 0; i < k.N; i++ {
			b := byteAtom(fmt.Sprintf("data%d", i))
			if k.Class == clsMidi {
				st.setBit(Bit{b.L.T[0].A, 7}, 0)
			}
			d.data = append(d.data, b)
			d.pay = append(d.pay, &SegElem{b})
		}
		d.payN = linConst(int64(k.N))
	} else if pin != nil && k.Class == clsMeta && k.MinN == 0 && ln == 1 {
		t := pinText()
		pin.n++
		d.body = append(d.body, &SegElem{numConst(int64(len(t)), 8, false)})
		for i := 0; i < len(t); i++ {
			d.pay = append(d.pay, &SegElem{numConst(int64(t[i]), 8, false)})
		}
		d.payN = linConst(int64(len(t)))
	} else {
		ls, v := in.vlqBytes(st, "length", ln)
		d.label += fmt.Sprintf(", length %d bytes", ln)
		d.body = append(d.body, ls...)
		d.root = newSeqAtom("payload", byteT)
		d.payN = v.L
		d.pay = []Seg{&SegSpan{d.root, linConst(0), v.L}}
		if k.MinN > 0 {
			st.assumeGE(linAddK(v.L, 1, linConst(int64(-k.MinN))))
		}
	}
	if k.Valid != nil {
		k.Valid(in, st, d)
	}
	d.body = append(d.body, d.pay...)
	d.segs = append(append([]Seg{}, ds...), d.body...)
	return d
}

func (d *evInput) payElem(st *State, i int64) *Num { return elemNum(st, d.root, intConst(i), 8, false) }

func strOf(segs []Seg) *StrV { return &StrV{segs} }

func channelFields(in *Interp, st *State, d *evInput, more ...fieldExp) []fieldExp {
	ch := numBin(st, "&", d.status, numConst(0x0f, 8, false))
	return append([]fieldExp{{"Status", d.status}, {"Channel", ch}}, more...)
}

func metaFields(d *evInput, more ...fieldExp) []fieldExp {
	return append([]fieldExp{{"Status", numConst(0xff, 8, false)}, {"Type", numConst(int64(d.k.Meta), 8, false)}}, more...)
}

func textKind(name string, typ int, field string) *Kind {
	return &Kind{Name: name, Tag: name, Pkg: "midi/events/meta", Class: clsMeta, Meta: typ, N: -1,
		Fields: func(in *Interp, st *State, d *evInput) []fieldExp {
			return metaFields(d, fieldExp{field, strOf(d.pay)})
		}}
}

func maxByte(st *State, n *Num, hi int64) { st.assumeGE(linAddK(linScale(n.L, -1), 1, linConst(hi))) }

var kinds = []*Kind{
	{Name: "NoteOff", Tag: "NoteOff", Pkg: "midi/events/midi", Status: 0x80, N: 2, Fields: func(in *Interp, st *State, d *evInput) []fieldExp {
		return channelFields(in, st, d, fieldExp{"Note.Value", d.data[0]}, fieldExp{"Velocity", d.data[1]})
	}},
	{Name: "NoteOn", Tag: "NoteOn", Pkg: "midi/events/midi", Status: 0x90, N: 2, Fields: func(in *Interp, st *State, d *evInput) []fieldExp {
		return channelFields(in, st, d, fieldExp{"Note.Value", d.data[0]}, fieldExp{"Velocity", d.data[1]})
	}},
	{Name: "PolyphonicPressure", Tag: "PolyphonicPressure", Pkg: "midi/events/midi", Status: 0xa0, N: 1, Fields: func(in *Interp, st *State, d *evInput) []fieldExp {
		return channelFields(in, st, d, fieldExp{"Pressure", d.data[0]})
	}},
	{Name: "Controller", Tag: "Controller", Pkg: "midi/events/midi", Status: 0xb0, N: 2, Fields: func(in *Interp, st *State, d *evInput) []fieldExp {
		return channelFields(in, st, d, fieldExp{"Controller.ID", d.data[0]}, fieldExp{"Value", d.data[1]})
	}},
	{Name: "ProgramChange", Tag: "ProgramChange", Pkg: "midi/events/midi", Status: 0xc0, N: 1, Fields: func(in *Interp, st *State, d *evInput) []fieldExp {
		return channelFields(in, st, d, fieldExp{"Program", d.data[0]}, fieldExp{"Bank", numConst(0, 16, false)})
	}},
	{Name: "ChannelPressure", Tag: "ChannelPressure", Pkg: "midi/events/midi", Status: 0xd0, N: 1, Fields: func(in *Interp, st *State, d *evInput) []fieldExp {
		return channelFields(in, st, d, fieldExp{"Pressure", d.data[0]})
	}},
	{Name: "PitchBend", Tag: "PitchBend", Pkg: "midi/events/midi", Status: 0xe0, N: 2, Fields: func(in *Interp, st *State, d *evInput) []fieldExp {
		b := numBin(st, "|", numShift(st, "<<", numConv(st, d.data[0], 16, false), 7), numConv(st, d.data[1], 16, false))
		return channelFields(in, st, d, fieldExp{"Bend", b})
	}},
	{Name: "SequenceNumber", Tag: "SequenceNumber", Pkg: "midi/events/meta", Class: clsMeta, Meta: 0x00, N: 2, Fields: func(in *Interp, st *State, d *evInput) []fieldExp {
		return metaFields(d, fieldExp{"SequenceNumber", numConv(st, cat8(st, d.data...), 16, false)})
	}},
	textKind("Text", 0x01, "Text"),
	textKind("Copyright", 0x02, "Copyright"),
	textKind("TrackName", 0x03, "Name"),
	textKind("InstrumentName", 0x04, "Name"),
	textKind("Lyric", 0x05, "Lyric"),
	textKind("Marker", 0x06, "Marker"),
	textKind("CuePoint", 0x07, "CuePoint"),
	textKind("ProgramName", 0x08, "Name"),
	textKind("DeviceName", 0x09, "Name"),
	{Name: "MIDIChannelPrefix", Tag: "MIDIChannelPrefix", Pkg: "midi/events/meta", Class: clsMeta, Meta: 0x20, N: 1,
		Valid: func(in *Interp, st *State, d *evInput) { maxByte(st, d.data[0], 15) },
		Fields: func(in *Interp, st *State, d *evInput) []fieldExp {
			return metaFields(d, fieldExp{"Channel", d.data[0]})
		}},
	{Name: "MIDIPort", Tag: "MIDIPort", Pkg: "midi/events/meta", Class: clsMeta, Meta: 0x21, N: 1,
		Valid:  func(in *Interp, st *State, d *evInput) { maxByte(st, d.data[0], 127) },
		Fields: func(in *Interp, st *State, d *evInput) []fieldExp { return metaFields(d, fieldExp{"Port", d.data[0]}) }},
	{Name: "EndOfTrack", Tag: "EndOfTrack", Pkg: "midi/events/meta", Class: clsMeta, Meta: 0x2f, N: 0,
		Fields: func(in *Interp, st *State, d *evInput) []fieldExp { return metaFields(d) }},
	{Name: "Tempo", Tag: "Tempo", Pkg: "midi/events/meta", Class: clsMeta, Meta: 0x51, N: 3, Fields: func(in *Interp, st *State, d *evInput) []fieldExp {
		return metaFields(d, fieldExp{"Tempo", cat8(st, d.data...)})
	}},
	{Name: "SMPTEOffset", Tag: "SMPTEOffset", Pkg: "midi/events/meta", Class: clsMeta, Meta: 0x54, N: 5,
		Valid: func(in *Interp, st *State, d *evInput) {
			st.setBit(Bit{d.data[0].L.T[0].A, 7}, 0)
			hour := numBin(st, "&", d.data[0], numConst(0x1f, 8, false))
			maxByte(st, hour, 24)
			maxByte(st, d.data[1], 59)
			maxByte(st, d.data[2], 59)
			maxByte(st, d.data[3], 23)
			maxByte(st, d.data[4], 100)
		},
		Fields: func(in *Interp, st *State, d *evInput) []fieldExp {
			hour := numBin(st, "&", d.data[0], numConst(0x1f, 8, false))
			rr := numBin(st, "&", numShift(st, ">>", d.data[0], 5), numConst(3, 8, false))
			fps := selNum(st, []int64{24, 25, 29, 30}, intLin(rr.L), 8, false)
			return metaFields(d, fieldExp{"Hour", hour}, fieldExp{"Minute", d.data[1]}, fieldExp{"Second", d.data[2]},
				fieldExp{"FrameRate", fps}, fieldExp{"Frames", d.data[3]}, fieldExp{"FractionalFrames", d.data[4]})
		}},
	{Name: "TimeSignature", Tag: "TimeSignature", Pkg: "midi/events/meta", Class: clsMeta, Meta: 0x58, N: 4,
		Valid: func(in *Interp, st *State, d *evInput) { maxByte(st, d.data[1], 7) },
		Fields: func(in *Interp, st *State, d *evInput) []fieldExp {
			den := selNum(st, []int64{1, 2, 4, 8, 16, 32, 64, 128}, intLin(d.data[1].L), 8, false)
			return metaFields(d, fieldExp{"Numerator", d.data[0]}, fieldExp{"Denominator", den},
				fieldExp{"TicksPerClick", d.data[2]}, fieldExp{"ThirtySecondsPerQuarter", d.data[3]})
		}},
	{Name: "KeySignature", Tag: "KeySignature", Pkg: "midi/events/meta", Class: clsMeta, Meta: 0x59, N: 2,
		Valid: func(in *Interp, st *State, d *evInput) {
			acc := newAtom("accidentals", 8, true)
			st.setRange(acc, -7, 7)
			d.data[0] = numConv(st, numAtom(acc, 8, true), 8, false)
			maxByte(st, d.data[1], 1)
			d.pay = []Seg{&SegElem{d.data[0]}, &SegElem{d.data[1]}}
		},
		Fields: func(in *Interp, st *State, d *evInput) []fieldExp {
			return metaFields(d, fieldExp{"Accidentals", numConv(st, d.data[0], 8, true)}, fieldExp{"KeyType", d.data[1]})
		}},
	{Name: "SequencerSpecificEvent", Tag: "SequencerSpecificEvent", Pkg: "midi/events/meta", Class: clsMeta, Meta: 0x7f, N: -1, MinN: 1,
		Fields: func(in *Interp, st *State, d *evInput) []fieldExp {
			n := int64(1)
			if st.proveEQ(d.payElem(st, 0).L) {
				n = 3
			}
			return metaFields(d, fieldExp{"Manufacturer.ID", &SeqV{[]Seg{&SegSpan{d.root, linConst(0), linConst(n)}}}},
				fieldExp{"Data", &SeqV{[]Seg{&SegSpan{d.root, linConst(n), linAddK(d.payN, 1, linConst(-n))}}}})
		}},
	{Name: "SysExMessage", Tag: "SysExMessage", Pkg: "midi/events/sysex", Class: clsSysex, Status: 0xf0, N: -1, MinN: 2,
		Fields: func(in *Interp, st *State, d *evInput) []fieldExp {
			n := int64(1)
			if st.proveEQ(d.payElem(st, 0).L) {
				n = 3
			}
			end := elemNum(st, d.root, intLin(linAddK(d.payN, 1, linConst(-1))), 8, false)
			l := linAddK(d.payN, 1, linConst(-n))
			if st.proveEQ(linAddK(end.L, 1, linConst(-0xf7))) {
				l = linAddK(l, 1, linConst(-1))
			}
			f := []fieldExp{{"Status", d.status}, {"Manufacturer.ID", &SeqV{[]Seg{&SegSpan{d.root, linConst(0), linConst(n)}}}},
				{"Data", &SeqV{[]Seg{&SegSpan{d.root, linConst(n), l}}}},
				{"Single", &BoolV{&Cond{Kind: 'e', L: linAddK(end.L, 1, linConst(-0xf7))}}}}
			return f
		}},
	{Name: "SysExContinuationMessage", Tag: "SysExContinuation", Pkg: "midi/events/sysex", Class: clsSysex, Status: 0xf7, N: -1, MinN: 1,
		Fields: func(in *Interp, st *State, d *evInput) []fieldExp {
			end := elemNum(st, d.root, intLin(linAddK(d.payN, 1, linConst(-1))), 8, false)
			l := d.payN
			if st.proveEQ(linAddK(end.L, 1, linConst(-0xf7))) {
				l = linAddK(l, 1, linConst(-1))
			}
			return []fieldExp{{"Status", d.status}, {"Data", &SeqV{[]Seg{&SegSpan{d.root, linConst(0), l}}}},
				{"End", &BoolV{&Cond{Kind: 'e', L: linAddK(end.L, 1, linConst(-0xf7))}}}}
		}},
	{Name: "SysExEscapeMessage", Tag: "SysExEscape", Pkg: "midi/events/sysex", Class: clsSysex, Status: 0xf7, N: -1,
		Fields: func(in *Interp, st *State, d *evInput) []fieldExp {
			return []fieldExp{{"Status", d.status}, {"Data", &SeqV{d.pay}}}
		}},
}

func (k *Kind) typ(p *Program) types.Type { return p.typ(k.Pkg, k.Name) }

// field reads a (possibly promoted) field or calls a niladic method; results are given per resulting state
func (in *Interp) field(st *State, v Val, t types.Type, path string) []callRes {
	parts := strings.Split(path, ".")
	cur := []callRes{{st, v}}
	ct := t
	for _, p := range parts {
		if strings.HasSuffix(p, "()") {
			fn := in.P.method(ct, strings.TrimSuffix(p, "()"))
			if fn == nil {
				return nil
			}
			var nx []callRes
			for _, c := range cur {
				nx = append(nx, in.callMethod(c.st, fn, c.val, nil)...)
			}
			cur = nx
			r := fn.Signature.Results()
			if r.Len() > 0 {
				ct = r.At(0).Type()
			}
			continue
		}
		pkg := in.pkgOf(ct)
		obj, index, _ := types.LookupFieldOrMethod(ct, true, pkg, p)
		f, ok := obj.(*types.Var)
		if !ok {
			return nil
		}
		for i := range cur {
			x := cur[i].val
			for _, ix := range index {
				if pv, ok := x.(*PtrV); ok {
					x = in.load(cur[i].st, pv, nil)
				}
				sv, ok := x.(*StructV)
				if !ok {
					return nil
				}
				x = sv.F[ix]
			}
			cur[i].val = x
		}
		ct = f.Type()
	}
	return cur
}

func (in *Interp) pkgOf(t types.Type) *types.Package {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	if n, ok := t.(*types.Named); ok {
		return n.Obj().Pkg()
	}
	return nil
}

// callMethod calls a method with a value, taking its address when the receiver is a pointer
func (in *Interp) callMethod(st *State, fn *ssa.Function, recv Val, args []Val) []callRes {
	var r Val = recv
	if _, isP := fn.Signature.Recv().Type().(*types.Pointer); isP {
		if _, ok := recv.(*PtrV); !ok {
			r = &PtrV{Obj: st.alloc(recv)}
		}
	} else if p, ok := recv.(*PtrV); ok {
		r = in.load(st, p, nil)
	}
	var out []callRes
	for _, o := range in.execFn(fn, append([]Val{r}, args...), nil, st, nil) {
		if o.st.dead {
			continue
		}
		var v Val
		if len(o.ret) == 1 {
			v = o.ret[0]
		} else {
			v = &TupleV{o.ret}
		}
		out = append(out, callRes{o.st, v})
	}
	return out
}

// same compares a computed value with the expected one: 1 equal, 0 different (with a witness), -1 undecided
func (in *Interp) same(st *State, got, want Val, show ...Val) (int, string) {
	if w, ok := want.(*SeqV); ok {
		if s, ok := got.(*SliceV); ok {
			got = &SeqV{in.normSegs(st, in.sliceSegs(st, s))}
		}
		if g, ok := got.(*SeqV); ok {
			if eq, _ := in.seqEqual(st, g.S, w.S); eq {
				return 1, ""
			}
		}
	} else if eq, _ := in.valEqual(st, got, want); eq {
		return 1, ""
	}
	if n, ok := got.(*Num); ok {
		if w, ok := want.(*Num); ok && in.tabEqual(st, n, w) {
			return 1, ""
		}
	}
	if w, why := in.differ(st, got, want, show...); w != "" {
		return 0, w
	} else {
		return -1, fmt.Sprintf("%s instead of %s: %s", clip(vstr(in.resolveVal(st, got))), clip(vstr(in.resolveVal(st, want))), why)
	}
}

// tabEqual decides equality of two expressions over a single byte-sized input by tabulating it
func (in *Interp) tabEqual(st *State, x, y *Num) bool {
	var prim *Atom
	bad := false
	seen := map[int]bool{}
	var at func(a *Atom)
	var ln func(l *Lin)
	at = func(a *Atom) {
		if seen[a.ID] || bad {
			return
		}
		seen[a.ID] = true
		switch {
		case a.Op == "" || a.Op == "elem":
			if prim != nil && prim != a {
				bad = true
			}
			prim = a
		case a.Op == "bits":
			for _, b := range a.Bits {
				if b.A != nil && b.A != a {
					at(b.A)
				}
			}
		default:
			for _, z := range a.Args {
				ln(z.L)
			}
		}
	}
	ln = func(l *Lin) {
		for _, t := range l.T {
			at(t.A)
		}
	}
	ln(x.L)
	ln(y.L)
	if bad || prim == nil || prim.W > 8 || imprecise(prim.Name) {
		return false
	}
	lo, hi := st.rangeAtom(prim)
	for c := lo; c <= hi; c++ {
		if k, ok := st.kb[prim.ID]; ok && uint64(c)&k.mask != k.val&k.mask {
			continue
		}
		v := &valuation{in: in, st: st, num: map[int]int64{prim.ID: c}, el: map[string]int64{}}
		a, b := v.numv(x), v.numv(y)
		if v.bad {
			return false
		}
		if a != b {
			// only a difference if the value is possible on this path
			okp := true
			for id, r := range st.iv {
				ai := atomList[id]
				if !dependsOnly(ai, prim) {
					continue
				}
				if z := v.atom(ai); z < r.lo || z > r.hi {
					okp = false
				}
			}
			for _, f := range st.neq {
				dep := true
				for _, t := range f.T {
					if !dependsOnly(t.A, prim) {
						dep = false
					}
				}
				if dep && v.lin(f) == 0 {
					okp = false
				}
			}
			for _, f := range st.facts {
				dep := true
				for _, t := range f.T {
					if !dependsOnly(t.A, prim) {
						dep = false
					}
				}
				if dep && v.lin(f) < 0 {
					okp = false
				}
			}
			if okp {
				return false
			}
		}
	}
	return true
}

func dependsOnly(a, prim *Atom) bool {
	if a == prim {
		return true
	}
	if a.Op == "" || a.Op == "elem" {
		return false
	}
	if a.Op == "bits" {
		for _, b := range a.Bits {
			if b.A != nil && b.A != a && !dependsOnly(b.A, prim) {
				return false
			}
		}
		return true
	}
	for _, x := range a.Args {
		for _, t := range x.L.T {
			if !dependsOnly(t.A, prim) {
				return false
			}
		}
	}
	return true
}
