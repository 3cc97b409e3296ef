package main

import (
	"fmt"
)

// malformed inputs of a kind: the label says what is wrong; every decoder must reject them
type badInput struct {
	label string
	own   bool // only meaningful for the kind's own decoder
	make  func(in *Interp, st *State) []Seg
}

func (k *Kind) head(in *Interp, st *State) []Seg {
	ds, _ := in.vlqBytes(st, "delta", 1)
	switch k.Class {
	case clsMidi:
		a := newAtom("status", 8, false)
		for i := 4; i < 8; i++ {
			st.setBit(Bit{a, i}, k.Status>>uint(i)&1)
		}
		return append(ds, &SegElem{numAtom(a, 8, false)})
	case clsMeta:
		return append(ds, &SegElem{numConst(0xff, 8, false)}, &SegElem{numConst(int64(k.Meta), 8, false)})
	}
	return append(ds, &SegElem{numConst(int64(k.Status), 8, false)})
}

func freeBytes(name string, n int) ([]Seg, []*Num) {
	var s []Seg
	var v []*Num
	for i := 0; i < n; i++ {
		b := byteAtom(fmt.Sprintf("%s%d", name, i))
		s = append(s, &SegElem{b})
		v = append(v, b)
	}
	return s, v
}

func (k *Kind) bad() []badInput {
	var out []badInput
	add := func(label string, own bool, f func(in *Interp, st *State) []Seg) {
		out = append(out, badInput{label, own, f})
	}
	// fixed payload with one constraint negated
	value := func(label string, f func(in *Interp, st *State, d []*Num)) {
		add(label, false, func(in *Interp, st *State) []Seg {
			h := k.head(in, st)
			p, v := freeBytes("data", k.N)
			if k.Class != clsMidi {
				h = append(h, &SegElem{numConst(int64(k.N), 8, false)})
			}
			f(in, st, v)
			return append(h, p...)
		})
	}
	minByte := func(st *State, n *Num, lo int64) { st.assumeGE(linAddK(n.L, 1, linConst(-lo))) }
	if k.Class == clsMidi {
		for i := 0; i < k.N; i++ {
			value(fmt.Sprintf("data byte %d above 127", i+1), func(in *Interp, st *State, d []*Num) {
				minByte(st, d[i], 128)
				for j := 0; j < i; j++ {
					maxByte(st, d[j], 127)
				}
			})
		}
		for n := 0; n < k.N; n++ {
			add(fmt.Sprintf("only %d data bytes", n), false, func(in *Interp, st *State) []Seg {
				p, v := freeBytes("data", n)
				for _, b := range v {
					maxByte(st, b, 127)
				}
				return append(k.head(in, st), p...)
			})
		}
		add("an extra data byte", true, func(in *Interp, st *State) []Seg {
			p, v := freeBytes("data", k.N+1)
			for _, b := range v {
				maxByte(st, b, 127)
			}
			return append(k.head(in, st), p...)
		})
		add("another status", true, func(in *Interp, st *State) []Seg {
			ds, _ := in.vlqBytes(st, "delta", 1)
			s := byteAtom("status")
			st.assumeNE(linAddK(numBin(st, "&", s, numConst(0xf0, 8, false)).L, 1, linConst(int64(-k.Status))))
			p, v := freeBytes("data", k.N)
			for _, b := range v {
				maxByte(st, b, 127)
			}
			return append(append(ds, &SegElem{s}), p...)
		})
		return out
	}
	if k.N >= 0 {
		for _, side := range []int{-1, 1} {
			if side < 0 && k.N == 0 {
				continue
			}
			dir := "shorter"
			if side > 0 {
				dir = "longer"
			}
			add("a data length "+dir+" than the kind's", false, func(in *Interp, st *State) []Seg {
				h := k.head(in, st)
				n := byteAtom("length")
				maxByte(st, n, 127)
				if side < 0 {
					maxByte(st, n, int64(k.N-1))
				} else {
					minByte(st, n, int64(k.N+1))
				}
				r := newSeqAtom("payload", byteT)
				return append(h, &SegElem{n}, &SegSpan{r, linConst(0), n.L})
			})
		}
	}
	if k.N > 0 || k.N < 0 {
		add("fewer data bytes than the length says", false, func(in *Interp, st *State) []Seg {
			h := k.head(in, st)
			var n *Num
			if k.N > 0 {
				n = numConst(int64(k.N), 8, false)
			} else {
				n = byteAtom("length")
				minByte(st, n, 1)
				maxByte(st, n, 127)
			}
			r := newSeqAtom("payload", byteT)
			st.assumeGE(linAddK(linSub(n.L, r.Len.L), 1, linConst(-1)))
			return append(h, &SegElem{n}, &SegSpan{r, linConst(0), r.Len.L})
		})
	}
	add("another status", true, func(in *Interp, st *State) []Seg {
		h := k.head(in, st)
		s := byteAtom("status")
		st.assumeNE(linAddK(s.L, 1, linConst(int64(-k.statusByte()))))
		h[1] = &SegElem{s}
		return append(h, k.okPayload(in, st)...)
	})
	if k.Class == clsMeta {
		add("another meta type", true, func(in *Interp, st *State) []Seg {
			h := k.head(in, st)
			s := byteAtom("type")
			st.assumeNE(linAddK(numBin(st, "&", s, numConst(0x7f, 8, false)).L, 1, linConst(int64(-k.Meta))))
			h[2] = &SegElem{s}
			return append(h, k.okPayload(in, st)...)
		})
	}
	switch k.Name {
	case "MIDIChannelPrefix":
		value("channel above 15", func(in *Interp, st *State, d []*Num) { minByte(st, d[0], 16) })
	case "MIDIPort":
		value("port above 127", func(in *Interp, st *State, d []*Num) { minByte(st, d[0], 128) })
	case "KeySignature":
		value("more than 7 sharps", func(in *Interp, st *State, d []*Num) { minByte(st, d[0], 8); maxByte(st, d[0], 127) })
		value("more than 7 flats", func(in *Interp, st *State, d []*Num) { minByte(st, d[0], 128); maxByte(st, d[0], 248) })
		value("key type above 1", func(in *Interp, st *State, d []*Num) { minByte(st, d[1], 2) })
	case "SMPTEOffset":
		hour := func(st *State, d []*Num) *Num { return numBin(st, "&", d[0], numConst(0x1f, 8, false)) }
		value("hour above 24", func(in *Interp, st *State, d []*Num) {
			st.setBit(Bit{d[0].L.T[0].A, 7}, 0)
			minByte(st, hour(st, d), 25)
		})
		value("minute above 59", func(in *Interp, st *State, d []*Num) { minByte(st, d[1], 60) })
		value("second above 59", func(in *Interp, st *State, d []*Num) { minByte(st, d[2], 60) })
		for rr, fps := range []int64{24, 25, 29, 30} {
			value(fmt.Sprintf("frame above %d at %d frames per second", fps-1, fps), func(in *Interp, st *State, d []*Num) {
				st.setBit(Bit{d[0].L.T[0].A, 5}, rr&1)
				st.setBit(Bit{d[0].L.T[0].A, 6}, rr>>1)
				minByte(st, d[3], fps)
			})
		}
		value("fractional frame above 100", func(in *Interp, st *State, d []*Num) { minByte(st, d[4], 101) })
	case "TimeSignature":
		value("denominator above 2^7", func(in *Interp, st *State, d []*Num) { minByte(st, d[1], 8) })
	}
	return out
}

func (k *Kind) statusByte() int {
	if k.Class == clsMeta {
		return 0xff
	}
	return k.Status
}

// okPayload: a length and payload that would be acceptable
func (k *Kind) okPayload(in *Interp, st *State) []Seg {
	if k.N >= 0 {
		p, v := freeBytes("data", k.N)
		for _, b := range v {
			maxByte(st, b, 0)
		}
		return append([]Seg{&SegElem{numConst(int64(k.N), 8, false)}}, p...)
	}
	return []Seg{&SegElem{numConst(4, 8, false)}, &SegElem{numConst(0x41, 8, false)}, &SegElem{numConst(1, 8, false)}, &SegElem{numConst(2, 8, false)}, &SegElem{numConst(0xf7, 8, false)}}
}

func init() {
	register(&Check{ID: "C07", Shard: true,
		Rule: "For each kind and each way its bytes can be malformed (wrong data length, data ending early, each value outside its range, another status or type byte, missing or extra data bytes, an over-long delta, an unknown status or meta type), with all other bytes free, every path of the kind's own decoder, the event dispatcher and the track decoder must end in a non-nil error; a path that accepts and has a valuation is a violation.",
		Run:  runC07})
}

func runC07(c *Ctx) {
	reject := func(key string, what string, mk func(in *Interp, st *State) []Seg, run func(in *Interp, st *State, segs []Seg) []decoded) {
		in := c.interp()
		in.noMerge = true
		in.cap = 600
		c.guard(key, in, func() {
			st := c.freshState(in)
			segs := mk(in, st)
			if st.dead {
				panic(stop{"empty input class"})
			}
			show := &SeqV{segs}
			outs := run(in, st, segs)
			for _, x := range outs {
				switch in.errNil(x.st, x.err) {
				case 0:
					c.Pass(key, in.errDesc(x.err))
				case 1:
					if w, why := in.witness(x.st, show); w != "" {
						c.Fail(key, "", fmt.Sprintf("accepted although %s: %s", what, w), x.st.pathString()...)
					} else {
						c.Undecided(key, "", "possibly accepted: "+why)
					}
				default:
					c.Undecided(key, "", "error result unknown")
				}
			}
		})
	}
	track := func(in *Interp, st *State, segs []Seg) []decoded {
		var out []decoded
		for _, t := range in.decodeTrack(st, nil, segs) {
			out = append(out, decoded{st: t.st, err: t.err})
		}
		return out
	}
	event := func(in *Interp, st *State, segs []Seg) []decoded {
		return in.decodeEvent(st, "UnmarshalBinary", in.newSlice(st, segs, byteT))
	}
	for _, k := range kinds {
		for _, b := range k.bad() {
			reject(fmt.Sprintf("%s/own: %s", k.Name, b.label), b.label, b.make, func(in *Interp, st *State, segs []Seg) []decoded {
				return in.decodeOwn(st, k.typ(c.P), segs)
			})
			if b.own {
				continue
			}
			if k.Name != "SysExEscapeMessage" {
				reject(fmt.Sprintf("%s/event: %s", k.Name, b.label), b.label, b.make, event)
			}
			reject(fmt.Sprintf("%s/track: %s", k.Name, b.label), b.label, b.make, track)
		}
		// a delta that is not a variable length quantity
		long := func(in *Interp, st *State) []Seg {
			p, v := freeBytes("delta", 4)
			for _, b := range v {
				st.setBit(Bit{b.L.T[0].A, 7}, 1)
			}
			return append(p, k.head(in, st)...)
		}
		reject(k.Name+"/own: delta of more than 4 bytes", "the delta has more than 4 bytes", long, func(in *Interp, st *State, segs []Seg) []decoded {
			return in.decodeOwn(st, k.typ(c.P), segs)
		})
	}
	long := func(in *Interp, st *State) []Seg {
		p, v := freeBytes("delta", 4)
		for _, b := range v {
			st.setBit(Bit{b.L.T[0].A, 7}, 1)
		}
		r := newSeqAtom("rest", byteT)
		return append(p, &SegSpan{r, linConst(0), r.Len.L})
	}
	reject("event: delta of more than 4 bytes", "the delta has more than 4 bytes", long, event)
	reject("track: delta of more than 4 bytes", "the delta has more than 4 bytes", long, track)
	// status and types that denote no event
	sys := func(in *Interp, st *State) []Seg {
		ds, _ := in.vlqBytes(st, "delta", 1)
		s := byteAtom("status")
		st.assumeGE(linAddK(s.L, 1, linConst(-0xf1)))
		st.assumeNE(linAddK(s.L, 1, linConst(-0xf7)))
		st.assumeNE(linAddK(s.L, 1, linConst(-0xff)))
		p, _ := freeBytes("data", 3)
		return append(append(ds, &SegElem{s}), p...)
	}
	reject("event: unknown status", "no event has this status", sys, event)
	reject("track: unknown status", "no event has this status", sys, track)
	unk := func(in *Interp, st *State) []Seg {
		ds, _ := in.vlqBytes(st, "delta", 1)
		t := byteAtom("type")
		st.setBit(Bit{t.L.T[0].A, 7}, 0)
		for _, k := range kinds {
			if k.Class == clsMeta {
				st.assumeNE(linAddK(t.L, 1, linConst(int64(-k.Meta))))
			}
		}
		n := byteAtom("length")
		maxByte(st, n, 127)
		r := newSeqAtom("payload", byteT)
		return append(ds, &SegElem{numConst(0xff, 8, false)}, &SegElem{t}, &SegElem{n}, &SegSpan{r, linConst(0), n.L})
	}
	reject("event: unknown meta type", "no meta event has this type", unk, event)
	reject("track: unknown meta type", "no meta event has this type", unk, track)
	// a data byte where no running status is in effect
	reject("track: data byte without running status", "no status precedes", func(in *Interp, st *State) []Seg {
		ds, _ := in.vlqBytes(st, "delta", 1)
		b := byteAtom("data")
		maxByte(st, b, 127)
		r := newSeqAtom("rest", byteT)
		return append(ds, &SegElem{b}, &SegSpan{r, linConst(0), r.Len.L})
	}, track)
}
