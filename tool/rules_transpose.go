package main

import "fmt"

func init() {
	register(&Check{ID: "C15", Shard: true,
		Rule: "Symbolic files (each of the 28 kinds with every value of its fields, sequences of events, two tracks) are decoded and given to the transpose operation. With a symbolic number of semitones the bytes written must be those of the file with every note of a note-on and note-off replaced by note+n limited to 0..127, and everything else unchanged. For every key signature (30) and every number of semitones in -40..40 the key signature written must have the same mode and a tonic n semitones away (modulo 12).",
		Run:  runC15})
}

// transposed runs the transpose operation on a decoded file
func (in *Interp) transposed(st *State, smf *PtrV, steps Val) []encoded {
	t := in.P.typ("ops/transpose", "Transpose")
	if t == nil {
		panic(stop{"no transpose operation"})
	}
	fn := in.P.method(t, "Execute")
	if fn == nil {
		panic(stop{"no Transpose.Execute"})
	}
	var out []encoded
	for _, r := range in.callMethod(st, fn, &PtrV{Obj: st.alloc(in.zero(st, t))}, []Val{smf, steps}) {
		if r.st.dead {
			continue
		}
		tv, ok := r.val.(*TupleV)
		if !ok {
			panic(stop{"Transpose.Execute result"})
		}
		out = append(out, encoded{r.st, tv.V[0], tv.V[1]})
	}
	return out
}

// moved: the tracks with every note replaced, by case of the limits
func moved(st *State, tracks [][]*evInput, steps *Num) []struct {
	st     *State
	tracks [][]*evInput
} {
	type res = struct {
		st     *State
		tracks [][]*evInput
	}
	out := []res{{st, nil}}
	for _, t := range tracks {
		for i := range out {
			out[i].tracks = append(append([][]*evInput{}, out[i].tracks...), nil)
		}
		for _, e := range t {
			var nx []res
			for _, o := range out {
				add := func(s *State, e *evInput) {
					if s.dead {
						return
					}
					tr := append([][]*evInput{}, o.tracks...)
					n := len(tr) - 1
					tr[n] = append(append([]*evInput{}, tr[n]...), e)
					nx = append(nx, res{s, tr})
				}
				if e.k.Name != "NoteOn" && e.k.Name != "NoteOff" {
					add(o.st, e)
					continue
				}
				v := linAddK(intLin(e.data[0].L).L, 1, steps.L)
				with := func(s *State, n *Num) *evInput {
					d := *e
					d.data = []*Num{n, e.data[1]}
					k := len(e.segs) - 2
					d.segs = append(append([]Seg{}, e.segs[:k]...), &SegElem{n}, e.segs[k+1])
					return &d
				}
				lo, hi, in := o.st.clone(), o.st.clone(), o.st
				lo.assumeGE(linAddK(linScale(v, -1), 1, linConst(-1)))
				add(lo, with(lo, numConst(0, 8, false)))
				hi.assumeGE(linAddK(v, 1, linConst(-128)))
				add(hi, with(hi, numConst(127, 8, false)))
				in = in.clone()
				in.assumeGE(v)
				in.assumeGE(linAddK(linScale(v, -1), 1, linConst(127)))
				add(in, with(in, numConv(in, &Num{64, true, v}, 8, false)))
			}
			out = nx
		}
	}
	return out
}

func runC15(c *Ctx) {
	c.fileTrips(func(in *Interp, key string, s smfState, file func(st *State) []Seg, show Val) {
		tracks, fileOf := c.tracks, c.fileOf
		for _, b := range [][2]int64{{-1000, 1000}, {5, 5}, {-70, -70}, {100, 100}, {0, 0}} {
			if (b[0] == b[1]) != (key == "file/KeySignature" || key == "file/notes and text") || key == "file/KeySignature" && b[0] != 0 {
				continue
			}
			st := s.st.clone()
			a := newAtom("semitones", 64, true)
			st.setRange(a, b[0], b[1])
			steps := st.resolve(numAtom(a, 64, true))
			if key == "file/KeySignature" { // the key itself is decided below
				steps = intConst(0)
				for _, e := range tracks[0][:1] {
					st.assumeEQ(e.data[0].L)
				}
				if st.dead {
					continue
				}
			}
			for _, m := range moved(st, tracks, steps) {
				before := m.st.clone()
				ts := in.transposed(m.st, s.smf, steps)
				c.returns(key, in, before, len(ts), "transpose", &TupleV{[]Val{show, steps}})
				for _, t := range ts {
					c.expectBytes(key, in, t, fileOf(t.st, m.tracks), "", "transposed file", &TupleV{[]Val{show, steps}})
				}
			}
		}
	}, nil)
	c.renamed()
	// key signatures
	for mode := 0; mode < 2; mode++ {
		for acc := -7; acc <= 7; acc++ {
			for n := -40; n <= 40; n++ {
				key := fmt.Sprintf("key %d %s %+d", acc, []string{"major", "minor"}[mode], n)
				in := c.trackInterp()
				c.guard(key, in, func() {
					st := c.freshState(in)
					head := "MThd\x00\x00\x00\x06\x00\x00\x00\x01\x00\x60MTrk\x00\x00\x00\x0b\x07\xff\x59\x02"
					tail := "\x81\x00\xff\x2f\x00"
					src := strToElems([]Seg{&SegLit{head + string([]byte{byte(int8(acc)), byte(mode)}) + tail}})
					in.show = []Val{&SeqV{src}}
					defer func() { c.panics(key, in) }()
					for _, s := range in.loadFile(st, src) {
						before := s.st.clone()
						ts := in.transposed(s.st, s.smf, intConst(int64(n)))
						c.returns(key, in, before, len(ts), "transpose", &TupleV{[]Val{&SeqV{src}, intConst(int64(n))}})
						for _, t := range ts {
							if !c.accepted(key, in, t.st, t.err, "key signature", &SeqV{src}) {
								continue
							}
							got, ok := in.constBytes(t.st, t.bytes)
							if !ok {
								c.Undecided(key, "", vstr(t.bytes))
								continue
							}
							h := len(head)
							if len(got) != h+2+len(tail) || got[:h] != head || got[h+2:] != tail {
								c.Fail(key, "", fmt.Sprintf("key signature with %d accidentals (%s) transposed by %d is written as % X", acc, []string{"major", "minor"}[mode], n, got))
								continue
							}
							a2, m2 := int(int8(got[h])), int(got[h+1])
							bad := m2 != mode || a2 < -7 || a2 > 7
							if !bad {
								from, _ := pitchClass(keyNotes(acc, mode == 1)[0])
								to, _ := pitchClass(keyNotes(a2, mode == 1)[0])
								bad = ((from+n)%12+12)%12 != to
							}
							if bad {
								c.Fail(key, "", fmt.Sprintf("key signature with %d accidentals, mode %d, transposed by %d becomes %d accidentals, mode %d", acc, mode, n, a2, m2))
							} else {
								c.Pass(key, fmt.Sprint(a2))
							}
						}
					}
				})
			}
		}
	}
}

// constBytes gives the constant contents of a byte slice
func (in *Interp) constBytes(st *State, v Val) (string, bool) {
	var segs []Seg
	switch x := v.(type) {
	case *SliceV:
		segs = in.normSegs(st, in.sliceSegs(st, x))
	case *SeqV:
		segs = in.normSegs(st, x.S)
	default:
		return "", false
	}
	return in.constStr(st, &StrV{segs})
}

// returns: a call that has no outcome on any path always panics
func (c *Ctx) returns(key string, in *Interp, before *State, n int, what string, show Val) {
	if n > 0 || before.dead {
		return
	}
	if w, why := in.witness(before, show); w != "" {
		c.Fail(key+":returns", "", what+" never returns: it panics on every path "+w+in.panicSite())
	} else {
		c.Undecided(key+":returns", "", what+" never returns "+why)
	}
}

// panicSite names the sites that failed
func (in *Interp) panicSite() string {
	s := ""
	for _, k := range sortedKeys(in.obls) {
		if o := in.obls[k]; o.Fail > 0 && len(s) < 200 {
			s += " [" + in.P.pos(o.Pos) + " " + o.Detail + "]"
		}
	}
	return s
}

// renamed: a transposed note carries the name of the note it has become
func (c *Ctx) renamed() {
	newCtx := c.needFn("midi/context", "NewContext")
	ctxT := c.P.typ("midi/context", "Context")
	if newCtx == nil || ctxT == nil {
		return
	}
	for _, name := range []string{"NoteOn", "NoteOff"} {
		k := kindNamed(name)
		t := k.typ(c.P)
		if t == nil {
			continue
		}
		fn := c.P.method(t, "Transpose")
		if fn == nil {
			c.Undecided(name+" names", "", "no Transpose method")
			continue
		}
		for _, how := range []string{"UseSharps", "UseFlats"} {
			use := c.P.method(ctxT, how)
			for n := 0; n < 128; n++ {
				for _, steps := range []int{-128, -13, -12, -1, 0, 1, 7, 12, 25, 128} {
					key := fmt.Sprintf("name/%s/%s/%d%+d", name, how, n, steps)
					in := c.trackInterp()
					c.guard(key, in, func() {
						st := c.freshState(in)
						src := []byte{0, byte(k.Status) | 3, byte(n), 64}
						segs := strToElems([]Seg{&SegLit{string(src)}})
						for _, d := range in.decodeOwn(st, t, segs) {
							if in.errNil(d.st, d.err) != 1 {
								continue
							}
							for _, o := range in.exec(d.st, newCtx) {
								for _, u := range in.exec(o.st, use, o.ret[0]) {
									for _, r := range in.callMethod(u.st, fn, d.val, []Val{o.ret[0], intConst(int64(steps))}) {
										want := min(max(n+steps, 0), 127)
										for _, f := range []string{"Note.Name", "Note.Alias"} {
											for _, v := range in.field(r.st, r.val, t, f) {
												c.constText(key+"/"+f, c.posOf(t), fmt.Sprintf("%s of %s %d transposed by %d", f, name, n, steps), in, v.st, v.val, func(s string) string {
													if v, ok := denotes(s, 1); !ok || v != want {
														return fmt.Sprintf("does not denote note %d", want)
													}
													return ""
												})
											}
										}
									}
								}
							}
						}
					})
				}
			}
		}
	}
}
