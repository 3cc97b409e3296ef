package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
)

func init() {
	register(&Check{ID: "C19", Shard: true,
		Rule: "Symbolic files of each format and every kind of event in track 0 and track 1, with bank selects on equal and different channels, without an end of track and with one that is not last, are decoded and validated: the set of tracks that the reports name must be the set of tracks that break one of the documented rules (and the file as a whole if it is format 0 without exactly one track).",
		Run:  runC19})
}

// headed: a file with a fixed format
func headed(in *Interp, st *State, format int, tracks [][]*evInput) []Seg {
	hi, lo := byteAtom("division0"), byteAtom("division1")
	st.setBit(Bit{hi.L.T[0].A, 7}, 0)
	pinNum(st, hi)
	pinNum(st, lo)
	n := len(tracks)
	f := strToElems([]Seg{&SegLit{"MThd\x00\x00\x00\x06\x00" + string(rune(format)) + "\x00" + string(rune(n))}})
	f = append(f, &SegElem{hi}, &SegElem{lo})
	for _, t := range tracks {
		f = append(f, strToElems([]Seg{&SegLit{"MTrk"}})...)
		f = append(f, be32(in, st, st.resolveLin(seqLen(allSegs(t))))...)
		f = append(f, allSegs(t)...)
	}
	return f
}

// reported: the tracks named by a list of reports; -1 is the file
func (in *Interp) reported(st *State, v Val) ([]int, string) {
	sl, ok := v.(*SliceV)
	if !ok {
		return nil, "list of reports not known"
	}
	set := map[int]bool{}
	for _, g := range in.normSegs(st, in.sliceSegs(st, sl)) {
		e, ok := g.(*SegElem)
		if !ok {
			return nil, "list of reports not known"
		}
		x := e.V
		if i, ok := x.(*IfaceV); ok {
			x = i.V
		}
		o, ok := x.(*OpaqueV)
		if !ok || o.Text == "" {
			return nil, "report not known"
		}
		var n int
		switch {
		case strings.HasPrefix(o.Text, "Track %"):
			if len(o.TextArgs) == 0 {
				return nil, "report not known"
			}
			a := o.TextArgs[0]
			if i, ok := a.(*IfaceV); ok {
				a = i.V
			}
			k, ok := a.(*Num)
			if !ok {
				return nil, "report not known"
			}
			c, ok := st.resolve(k).constVal()
			if !ok {
				return nil, "track number not known"
			}
			n = int(c)
		case strings.HasPrefix(o.Text, "Track "):
			if k, err := fmt.Sscanf(o.Text, "Track %d", &n); k != 1 || err != nil {
				return nil, "report not known"
			}
		default:
			n = -1
		}
		set[n] = true
	}
	out := []int{}
	for n := range set {
		out = append(out, n)
	}
	sort.Ints(out)
	return out, ""
}

func runC19(c *Ctx) {
	smfT := c.P.typ("midi", "SMF")
	fn := c.P.method(types.NewPointer(smfT), "Validate")
	if fn == nil {
		c.Undecided("validate", "", "no Validate")
		return
	}
	track0 := map[string]bool{"Tempo": true, "TimeSignature": true, "TrackName": true, "SMPTEOffset": true, "Copyright": true, "EndOfTrack": true}
	// a track is a list of kinds; Controller:b:c has number b and channel c (b = x: another number)
	run := func(key string, format int, shape ...[]string) {
		in := c.trackInterp()
		c.guard(key, in, func() {
			st0 := c.freshState(in)
			want := map[int]bool{}
			free := 0 // controllers with a free number
			var tracks [][]*evInput
			for i, sh := range shape {
				var t []*evInput
				eot := -1
				prev := ""
				bank := func(s string) (num, ch string) {
					if p := strings.Split(s, ":"); len(p) == 3 {
						return p[1], p[2]
					}
					return "", ""
				}
				for j, s := range append(append([]string{}, sh...), "-") {
					pn, pc := bank(prev)
					n, ch := bank(s)
					if s != "-" && pn == "0" && (n != "32" || ch != pc) || n == "32" && (pn != "0" || ch != pc) {
						want[i] = true
					}
					prev = s
					if s == "-" {
						break
					}
					name := strings.Split(s, ":")[0]
					if name == "EndOfTrack" {
						eot = j
						if j+1 != len(sh) {
							want[i] = true
						}
					}
					if format == 1 && i == 0 && !track0[name] || format == 1 && i > 0 && (name == "Tempo" || name == "SMPTEOffset") {
						want[i] = true
					}
					d := kindNamed(name).build(in, st0, 1, 1)
					minimal(st0, d.delta.L, 1)
					if name == "Controller" {
						num := d.data[0].L.T[0].A
						if n == "x" && free == 0 {
							free++
							st0.assumeNE(linAddK(d.data[0].L, 1, linConst(-32)))
							st0.assumeNE(d.data[0].L)
						} else {
							for b := 0; b < 8; b++ {
								v := 0
								switch n {
								case "32":
									v = 32
								case "x":
									v = 7
								}
								st0.setBit(Bit{num, b}, v>>uint(b)&1)
							}
						}
						if ch != "" {
							k := int(ch[0] - '0')
							for b := 0; b < 4; b++ {
								st0.setBit(Bit{d.status.L.T[0].A, b}, k>>uint(b)&1)
							}
						}
					} else {
						fixFirst(st0, d)
					}
					t = append(t, d)
				}
				if eot < 0 {
					want[i] = true
				}
				tracks = append(tracks, t)
			}
			if format == 0 && len(shape) != 1 {
				want[-1] = true
			}
			exp := []int{}
			for n := range want {
				exp = append(exp, n)
			}
			sort.Ints(exp)
			if st0.dead {
				return
			}
			states := []*State{st0}
			for _, t := range tracks {
				var nx []*State
				for _, s := range states {
					nx = append(nx, seqStates(in, s, t, false)...)
				}
				states = nx
			}
			for _, st := range states {
				f := headed(in, st, format, tracks)
				show := &SeqV{f}
				in.show = []Val{show}
				for _, s := range in.loadFile(st, f) {
					for _, r := range in.callMethod(s.st, fn, s.smf, nil) {
						if r.st.dead {
							continue
						}
						v := r.val
						if t, ok := v.(*TupleV); ok {
							v = t.V[0]
						}
						got, why := in.reported(r.st, v)
						switch {
						case why != "":
							c.Undecided(key, "", why)
						case fmt.Sprint(got) == fmt.Sprint(exp):
							c.Pass(key, fmt.Sprintf("reports name %v", got))
						default:
							wit, no := in.witness(r.st, show)
							if wit == "" {
								c.Undecided(key, "", fmt.Sprintf("reports name %v, expected %v: %s", got, exp, no))
								continue
							}
							c.Fail(key, c.P.pos(fn.Pos()), fmt.Sprintf("validation reports name tracks %v instead of %v (-1: the file) for %s", got, exp, wit), r.st.trace...)
						}
					}
				}
			}
		})
	}
	E := "EndOfTrack"
	for _, k := range kinds {
		if k.Name == E || k.Name == "SysExContinuationMessage" || !c.kindHas(k) {
			continue
		}
		n := k.Name
		if n == "Controller" {
			n = "Controller:x:3"
		}
		for f := 0; f < 3; f++ {
			run(fmt.Sprintf("format %d/%s in track 0", f, k.Name), f, []string{n, E})
			if f > 0 {
				run(fmt.Sprintf("format %d/%s in track 1", f, k.Name), f, []string{"Tempo", E}, []string{n, E})
				run(fmt.Sprintf("format %d/%s in track 2", f, k.Name), f, []string{E}, []string{"NoteOn", E}, []string{n, E})
			}
		}
		run("no end of track/"+k.Name, 2, []string{E}, []string{n})
		run("end of track not last/"+k.Name, 2, []string{E, n, E}, []string{E})
		run("nothing after the end of track/"+k.Name, 0, []string{E, n})
	}
	for f := 0; f < 3; f++ {
		run(fmt.Sprintf("format %d/no tracks", f), f)
		run(fmt.Sprintf("format %d/one track", f), f, []string{E})
		run(fmt.Sprintf("format %d/two tracks", f), f, []string{E}, []string{E})
		run(fmt.Sprintf("format %d/three tracks", f), f, []string{E}, []string{E}, []string{E})
		run(fmt.Sprintf("format %d/no events", f), f, []string{})
		run(fmt.Sprintf("format %d/no events in track 1", f), f, []string{E}, []string{})
		run(fmt.Sprintf("format %d/no events in track 0 of 2", f), f, []string{}, []string{E})
		run(fmt.Sprintf("format %d/no end of track 1 of 3", f), f, []string{E}, []string{"Text"}, []string{E})
		run(fmt.Sprintf("format %d/two ends of track", f), f, []string{E}, []string{E, E})
	}
	ctl := func(n string, ch int) string { return fmt.Sprintf("Controller:%s:%d", n, ch) }
	ns := []string{"0", "32", "x"}
	for _, a := range ns {
		for _, f := range []int{0, 2} {
			run(fmt.Sprintf("bank/format %d/%s", f, a), f, []string{ctl(a, 5), E})
			run(fmt.Sprintf("bank/format %d/NoteOn %s", f, a), f, []string{"NoteOn", ctl(a, 5), E})
		}
		run("bank/track 1/"+a, 1, []string{E}, []string{ctl(a, 5), E})
		for _, b := range ns {
			for _, ch := range []int{5, 4, 13} {
				run(fmt.Sprintf("bank/%s %s on %d", a, b, ch), 0, []string{ctl(a, 5), ctl(b, ch), E})
				run(fmt.Sprintf("bank/%s Text %s on %d", a, b, ch), 0, []string{ctl(a, 5), "Text", ctl(b, ch), E})
				run(fmt.Sprintf("bank/second track/%s %s on %d", a, b, ch), 2, []string{E}, []string{ctl(a, 5), ctl(b, ch), "ProgramChange", E})
			}
			for _, d := range ns {
				run("bank/"+a+" "+b+" "+d, 0, []string{ctl(a, 5), ctl(b, 5), ctl(d, 5), E})
			}
		}
	}
	run("bank/two pairs", 0, []string{ctl("0", 5), ctl("32", 5), ctl("0", 6), ctl("32", 6), E})
	run("bank/across tracks", 2, []string{ctl("0", 5), E}, []string{ctl("32", 5), E})
}
