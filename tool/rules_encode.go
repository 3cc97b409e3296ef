package main

import (
	"fmt"
	"go/types"
	"strings"
)

// minimal restricts a variable length quantity of n bytes to the values that need n bytes
func minimal(st *State, v *Lin, n int) {
	if n > 1 {
		st.assumeGE(linAddK(v, 1, linConst(-(int64(1) << uint(7*(n-1))))))
	}
}

type encoded struct {
	st    *State
	bytes Val
	err   Val
}

// encodeOwn calls MarshalBinary on a value
func (in *Interp) encodeOwn(st *State, t types.Type, v Val) []encoded {
	fn := in.P.method(t, "MarshalBinary")
	if fn == nil {
		panic(stop{"no MarshalBinary on " + t.String()})
	}
	var out []encoded
	for _, r := range in.callMethod(st, fn, v, nil) {
		tu, ok := r.val.(*TupleV)
		if !ok || len(tu.V) != 2 {
			panic(stop{"MarshalBinary result"})
		}
		out = append(out, encoded{r.st, tu.V[0], tu.V[1]})
	}
	return out
}

func (in *Interp) encodeTrack(st *State, mtrk Val) []encoded {
	fn := in.P.fn("encoding/midi", "EncodeMTrk")
	if fn == nil {
		panic(stop{"no EncodeMTrk"})
	}
	var out []encoded
	for _, o := range in.execFn(fn, []Val{mtrk}, nil, st, nil) {
		if !o.st.dead {
			out = append(out, encoded{o.st, o.ret[0], o.ret[1]})
		}
	}
	return out
}

// expectBytes judges an encoding against the expected bytes
func (c *Ctx) expectBytes(key string, in *Interp, e encoded, want []Seg, where, what string, show Val) {
	switch in.errNil(e.st, e.err) {
	case 0:
		if w, why := in.witness(e.st, show); w != "" {
			c.Fail(key+":accepted", where, fmt.Sprintf("%s: not encoded (%s) %s", what, in.errDesc(e.err), w), e.st.pathString()...)
		} else {
			c.Undecided(key+":accepted", where, "possible encoding error: "+why+" "+in.errDesc(e.err))
		}
		return
	case -1:
		c.Undecided(key+":accepted", where, "error result unknown")
		return
	}
	switch ok, why := in.same(e.st, e.bytes, &SeqV{in.normSegs(e.st, strToElems(want))}, show); ok {
	case 1:
		c.Pass(key+":bytes", vstr(in.resolveVal(e.st, e.bytes)))
	case 0:
		c.Fail(key+":bytes", where, what+" "+why, e.st.pathString()...)
	default:
		if verbose {
			fmt.Println("PATH", strings.Join(e.st.pathString(), "; "))
		}
		c.Undecided(key+":bytes", where, why)
	}
}

// be32 gives the 4 bytes of a length
func be32(in *Interp, st *State, n *Lin) []Seg {
	return in.beBytes(st, st.resolve(numConv(st, intLin(n), 32, false)), 32, false)
}

func init() {
	register(&Check{ID: "C02", Shard: true,
		Rule: "For each of the 28 event kinds, over symbolic well formed bytes with a minimal 1-4 byte length, the value produced by the binary decoder (own, and track) is encoded again (MarshalBinary; EncodeMTrk) and the resulting byte sequence must be identical, element by element and in length, to the bytes that were decoded.",
		Run:  runC02})
	register(&Check{ID: "C03",
		Rule: "For each length class (1-4 bytes, the value free within the class) the variable-length encoders lib.VLQ, lib.Delta, lib.VLF, lib.Hex and the track encoder are interpreted abstractly and must give exactly the minimal quantity; the decoders lib.DecodeDelta, events.VLQ and events.VLF on each symbolic 1-4 byte quantity must give exactly the value and leave exactly the remaining bytes.",
		Run:  runC03})
}

func runC02(c *Ctx) {
	for _, k := range kinds {
		for _, e := range decEntries() {
			if e.name == "event" {
				continue
			}
			for _, ln := range k.lens() {
				for dn := 1; dn <= 4; dn++ {
					if dn > 1 && (ln > 1 || e.name == "own") {
						continue
					}
					key := k.Name + "/" + e.name
					in := c.interp()
					in.noMerge = true
					in.cap = 600
					c.guard(key, in, func() {
						st0 := c.freshState(in)
						d := k.build(in, st0, dn, ln)
						minimal(st0, d.delta.L, dn)
						if k.N < 0 {
							minimal(st0, d.payN, ln)
						}
						show := &SeqV{d.segs}
						where := c.posOf(k.typ(c.P))
						for _, st := range k.cases(in, st0, d) {
							if e.name == "own" {
								for _, x := range e.run(in, st, k, d) {
									if in.errNil(x.st, x.err) != 1 || x.t == nil {
										continue // C01
									}
									for _, y := range in.encodeOwn(x.st, x.t, x.val) {
										c.expectBytes(key, in, y, d.body, where, k.Name, show)
									}
								}
								continue
							}
							prep := func(st *State, ctx *PtrV) {
								if k.Name == "SysExContinuationMessage" {
									in.setField(st, ctx, "Casio", boolConst(true))
								}
							}
							for _, t := range in.decodeTrack(st, prep, d.segs) {
								if in.errNil(t.st, t.err) != 1 {
									continue
								}
								for _, y := range in.encodeTrack(t.st, in.load(t.st, t.mtrk, nil)) {
									want := append(strToElems([]Seg{&SegLit{"MTrk"}}), be32(in, y.st, seqLen(d.segs))...)
									want = append(want, d.segs...)
									c.expectBytes(key, in, y, want, where, k.Name+" track", show)
								}
							}
						}
						c.counts["unmodelled calls"] += len(in.unmod)
					})
				}
			}
		}
	}
}

func runC03(c *Ctx) {
	// encoders
	for n := 1; n <= 4; n++ {
		for _, name := range []string{"VLQ", "Delta", "VLF", "Hex"} {
			t := c.P.typ("midi/lib", name)
			if t == nil {
				continue
			}
			key := "encode/lib." + name
			in := c.interp()
			in.noMerge = true
			c.guard(key, in, func() {
				st := c.freshState(in)
				a := newAtom("value", 32, false)
				for i := 7 * n; i < 32; i++ {
					st.setBit(Bit{a, i}, 0)
				}
				v := numAtom(a, 32, false)
				minimal(st, v.L, n)
				var want []Seg
				for i := 0; i < n; i++ {
					b := numConv(st, numBin(st, "&", numShift(st, ">>", v, int64(7*(n-1-i))), numConst(0x7f, 32, false)), 8, false)
					if i < n-1 {
						b = numBin(st, "|", b, numConst(0x80, 8, false))
					}
					want = append(want, &SegElem{st.resolve(b)})
				}
				var arg Val = v
				var show Val = v
				if name == "VLF" || name == "Hex" {
					r := newSeqAtom("data", byteT)
					seg := []Seg{&SegSpan{r, linConst(0), v.L}}
					arg = in.newSlice(st, seg, byteT)
					want = append(want, seg...)
				}
				for _, y := range in.encodeOwn(st, t, arg) {
					c.expectBytes(key, in, y, want, c.posOf(t), "lib."+name+" quantity", show)
				}
			})
		}
	}
	// decoders
	for n := 1; n <= 4; n++ {
		for _, f := range [][3]string{{"midi/lib", "DecodeDelta", "q"}, {"midi/events", "VLQ", "q"}, {"midi/events", "VLF", "f"}} {
			fn := c.P.fn(f[0], f[1])
			if fn == nil {
				continue
			}
			key := "decode/" + f[1]
			in := c.interp()
			in.noMerge = true
			c.guard(key, in, func() {
				st := c.freshState(in)
				segs, v := in.vlqBytes(st, "byte", n)
				body := append([]Seg{}, segs...)
				if f[2] == "f" {
					r := newSeqAtom("payload", byteT)
					body = append(body, &SegSpan{r, linConst(0), v.L})
				}
				rest := newSeqAtom("rest", byteT)
				all := append(append([]Seg{}, body...), &SegSpan{rest, linConst(0), rest.Len.L})
				show := &SeqV{segs}
				p := &PtrV{Obj: st.alloc(&ReaderObj{Kind: "bytes", S: all, Pos: linConst(0)})}
				rt := c.P.extType("bytes", "Reader")
				if rt == nil {
					panic(stop{"bytes.Reader not loaded"})
				}
				arg := &IfaceV{types.NewPointer(rt), p}
				for _, o := range in.execFn(fn, []Val{arg}, nil, st, nil) {
					if o.st.dead {
						continue
					}
					e := encoded{o.st, o.ret[0], o.ret[1]}
					where := c.P.pos(fn.Pos())
					if in.errNil(e.st, e.err) != 1 {
						c.expectBytes(key, in, e, nil, where, "quantity", show)
						continue
					}
					if f[2] == "f" {
						e.bytes = v // the copy itself is judged by what the decoders make of it (C01)
					}
					var want Val = v
					switch ok, why := in.same(e.st, e.bytes, want, show); ok {
					case 1:
						c.Pass(key+":value", vstr(in.resolveVal(e.st, e.bytes)))
					case 0:
						c.Fail(key+":value", where, "quantity "+why, e.st.pathString()...)
					default:
						c.Undecided(key+":value", where, why)
					}
					r, ok := in.load(e.st, p, nil).(*ReaderObj)
					if !ok {
						c.Undecided(key+":consumed", where, "reader lost")
						continue
					}
					switch ok, why := in.same(e.st, intLin(r.Pos), intLin(seqLen(body)), show); ok {
					case 1:
						c.Pass(key+":consumed", "")
					case 0:
						c.Fail(key+":consumed", where, "bytes consumed "+why, e.st.pathString()...)
					default:
						c.Undecided(key+":consumed", where, why)
					}
				}
			})
		}
	}
}
