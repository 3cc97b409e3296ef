package main

import (
	"fmt"
	"go/types"
	"reflect"
)

func init() {
	register(&Check{ID: "C26", Shard: true,
		Rule: "Files with a tempo track and a track of note events (channels and keys from a list of equal and different ones, free velocities, distinct ticks) are decoded and given to the notes operation; the notes it exports must be exactly the pairs of each note-on with the next note-off (or note-on of velocity 0) of the same channel and key, each with the channel, key and velocity of its note-on and the start and end time of the two events; notes still sounding end with the track.",
		Run:  runC26})
}

type noteEv struct {
	on, ch, key int // on: 1 note on, 0 note off, 2 note on with velocity 0
}

func (e noteEv) String() string {
	return fmt.Sprintf("%s%d:%d", []string{"-", "+", "0"}[e.on], e.ch, e.key)
}

func runC26(c *Ctx) {
	smfT := c.P.typ("midi", "SMF")
	t := c.P.typ("ops/notes", "Notes")
	if smfT == nil || t == nil || c.P.method(t, "Execute") == nil {
		c.Undecided("notes", "", "no notes operation")
		return
	}
	fn := c.P.method(t, "Execute")
	run := func(seq ...noteEv) {
		key := fmt.Sprint(seq)
		in := c.trackInterp()
		in.cap = 60
		c.guard(key, in, func() {
			st := c.freshState(in)
			fix := func(n *Num, v int) {
				for b := 0; b < 8; b++ {
					if len(n.L.T) > 0 {
						st.setBit(Bit{n.L.T[0].A, b}, v>>uint(b)&1)
					}
				}
			}
			end := func() *evInput {
				d := kindNamed("EndOfTrack").build(in, st, 1, 1)
				fix(d.delta, 7)
				return d
			}
			type sounding struct {
				vel   *Num
				start int
			}
			type want struct {
				ch, key    int
				vel        *Num
				start, end int
			}
			var exp []want
			open := map[[2]int]sounding{}
			var t1 []*evInput
			for i, e := range seq {
				name := "NoteOn"
				if e.on == 0 {
					name = "NoteOff"
				}
				d := kindNamed(name).build(in, st, 1, 1)
				fix(d.delta, 7)
				for b := 0; b < 4; b++ {
					st.setBit(Bit{d.status.L.T[0].A, b}, e.ch>>uint(b)&1)
				}
				fix(d.data[0], e.key)
				k := [2]int{e.ch, e.key}
				switch e.on {
				case 1:
					st.assumeGE(linAddK(d.data[1].L, 1, linConst(-1)))
					if _, ok := open[k]; !ok {
						open[k] = sounding{d.data[1], i + 1}
					}
				default:
					if e.on == 2 {
						fix(d.data[1], 0)
					}
					if s, ok := open[k]; ok {
						exp = append(exp, want{e.ch, e.key, s.vel, s.start, i + 1})
						delete(open, k)
					}
				}
				t1 = append(t1, d)
			}
			for k, s := range open {
				exp = append(exp, want{k[0], k[1], s.vel, s.start, len(seq) + 1})
			}
			t1 = append(t1, end())
			tracks := [][]*evInput{{end()}, t1}
			f := headed(in, st, 1, tracks)
			for i, v := range []int{0, 96} { // 96 ticks to the quarter note
				fix(f[12+i].(*SegElem).V.(*Num), v)
			}
			show := &SeqV{f}
			in.show = []Val{show}
			if st.dead {
				panic(stop{"input"})
			}
			for _, s := range in.loadFile(st, f) {
				_, w := in.newBuffer(s.st)
				z := in.zero(s.st, t).(*StructV)
				sT := t.Underlying().(*types.Struct)
				for i := 0; i < sT.NumFields(); i++ {
					switch sT.Field(i).Name() {
					case "JSON":
						z.F[i] = boolConst(true)
					case "Writer":
						z.F[i] = w
					}
				}
				for _, r := range in.callMethod(s.st, fn, &PtrV{Obj: s.st.alloc(z)}, []Val{s.smf}) {
					if r.st.dead {
						continue
					}
					m := r.st.ghost["marshalled"]
					if i, ok := m.(*IfaceV); ok {
						m = i.V
					}
					got, why := in.noteList(r.st, m)
					if why != "" {
						c.Undecided(key, "", why)
						continue
					}
					bad, unk := "", ""
					if len(got) != len(exp) {
						bad = fmt.Sprintf("%d notes instead of %d", len(got), len(exp))
					}
					times := map[int]string{}
					used := map[int]bool{}
					for _, e := range exp {
						if bad != "" {
							break
						}
						hit := -1
						for i, g := range got {
							if used[i] {
								continue
							}
							if c1, ok := r.st.resolve(g.ch).constVal(); !ok || int(c1) != e.ch {
								continue
							}
							if c1, ok := r.st.resolve(g.key).constVal(); !ok || int(c1) != e.key {
								continue
							}
							if vkey(r.st.resolve(g.vel)) == vkey(r.st.resolve(e.vel)) {
								hit = i
								break
							}
						}
						if hit < 0 {
							bad = fmt.Sprintf("no note on channel %d, key %d with the velocity of the note-on that is event %d", e.ch, e.key, e.start)
							break
						}
						used[hit] = true
						for _, x := range []struct {
							tick int
							v    string
						}{{e.start, vkey(got[hit].start)}, {e.end, vkey(got[hit].end)}} {
							if o, ok := times[x.tick]; ok && o != x.v {
								bad = fmt.Sprintf("the time of event %d is given as %s and as %s", x.tick, o, x.v)
							}
							for t, o := range times {
								if t != x.tick && o == x.v {
									bad = fmt.Sprintf("the note on channel %d, key %d has the time of event %d instead of event %d", e.ch, e.key, t, x.tick)
								}
							}
							times[x.tick] = x.v
						}
					}
					switch {
					case bad == "" && unk == "":
						c.Pass(key, fmt.Sprintf("%d notes", len(got)))
					default:
						wit, no := in.witness(r.st, show)
						if wit == "" {
							c.Undecided(key, "", bad+": "+no)
							continue
						}
						c.Fail(key, c.P.pos(fn.Pos()), "notes: "+bad+" "+wit, r.st.trace...)
					}
				}
			}
		})
	}
	on := func(ch, k int) noteEv { return noteEv{1, ch, k} }
	off := func(ch, k int) noteEv { return noteEv{0, ch, k} }
	zero := func(ch, k int) noteEv { return noteEv{2, ch, k} }
	for _, ch := range []int{0, 1, 9, 15} {
		for _, k := range []int{0, 60, 127} {
			run(on(ch, k), off(ch, k))
			run(on(ch, k), zero(ch, k))
			run(on(ch, k))
		}
	}
	run()
	run(off(0, 60))
	run(zero(3, 60))
	// two notes: same or other channel, same or other key; all orders of ending
	for _, p := range [][4]int{{0, 60, 1, 60}, {0, 60, 0, 61}, {0, 60, 1, 61}, {7, 60, 15, 60}, {2, 0, 2, 127}, {3, 16, 4, 0}, {0, 1, 1, 0}} {
		a, b, k, l := p[0], p[2], p[1], p[3]
		for _, e1 := range []func(int, int) noteEv{off, zero} {
			for _, e2 := range []func(int, int) noteEv{off, zero} {
				run(on(a, k), on(b, l), e1(a, k), e2(b, l))
				run(on(a, k), on(b, l), e1(b, l), e2(a, k))
				run(on(a, k), e1(a, k), on(b, l), e2(b, l))
			}
			run(on(a, k), e1(b, l), e1(a, k))
			run(on(a, k), on(b, l), e1(a, k))
			run(on(a, k), on(b, l), e1(b, l))
		}
		run(on(a, k), on(b, l))
	}
	// again after the end, ended twice, started twice
	run(on(4, 60), off(4, 60), on(4, 60), off(4, 60))
	run(on(4, 60), zero(4, 60), on(4, 60), zero(4, 60))
	run(on(4, 60), off(4, 60), off(4, 60))
	run(on(4, 60), off(4, 60), zero(4, 60), on(4, 60), off(4, 60))
	run(on(4, 60), on(4, 60), off(4, 60))
	run(on(4, 60), on(4, 60), off(4, 60), off(4, 60))
	run(on(1, 60), on(2, 60), on(3, 60), off(2, 60), off(3, 60), off(1, 60))
	run(on(1, 60), on(1, 61), on(1, 62), off(1, 61), zero(1, 60))
}

type gotNote struct {
	ch, key, vel *Num
	start, end   Val
}

// noteList reads the exported list of notes
func (in *Interp) noteList(st *State, v Val) ([]gotNote, string) {
	if p, ok := v.(*PtrV); ok && p.Obj != 0 {
		v = in.load(st, p, nil)
	}
	s, ok := v.(*StructV)
	if !ok {
		return nil, fmt.Sprintf("exported object not known (%T) %v %v", v, in.unmod, st.trace)
	}
	var list *SliceV
	for _, f := range s.F {
		if l, ok := f.(*SliceV); ok {
			list = l
		}
	}
	if list == nil {
		return nil, "no list of notes exported"
	}
	var out []gotNote
	for _, g := range in.normSegs(st, in.sliceSegs(st, list)) {
		e, ok := g.(*SegElem)
		if !ok {
			return nil, "list of notes not known"
		}
		x := e.V
		if p, ok := x.(*PtrV); ok && p.Obj != 0 {
			x = in.load(st, p, nil)
		}
		n, ok := x.(*StructV)
		if !ok {
			return nil, "note not known"
		}
		sT, ok := n.T.Underlying().(*types.Struct)
		if !ok {
			return nil, "note not known"
		}
		var r gotNote
		for i := range n.F {
			k, _ := n.F[i].(*Num)
			switch reflect.StructTag(sT.Tag(i)).Get("json") {
			case "channel":
				r.ch = k
			case "midi-note":
				r.key = k
			case "velocity":
				r.vel = k
			case "start":
				r.start = n.F[i]
			case "end":
				r.end = n.F[i]
			}
		}
		if r.ch == nil || r.key == nil || r.vel == nil || r.start == nil || r.end == nil {
			return nil, "note fields not known"
		}
		out = append(out, r)
	}
	return out, ""
}
