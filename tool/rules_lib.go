package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------- music theory, as the specification

var pcNat = map[byte]int{'C': 0, 'D': 2, 'E': 4, 'F': 5, 'G': 7, 'A': 9, 'B': 11}

// pitchClass of a letter with an optional accidental
func pitchClass(s string) (int, bool) {
	if s == "" {
		return 0, false
	}
	p, ok := pcNat[s[0]]
	if !ok {
		return 0, false
	}
	switch s[1:] {
	case "":
	case "♯":
		p++
	case "♭":
		p--
	default:
		return 0, false
	}
	return (p + 12) % 12, true
}

// denotes gives the note number a name stands for
func denotes(s string, base int) (int, bool) {
	i := strings.IndexAny(s, "-0123456789")
	if i < 1 {
		return 0, false
	}
	pc, ok := pitchClass(s[:i])
	var oct int
	if _, err := fmt.Sscanf(s[i:], "%d", &oct); err != nil || !ok || fmt.Sprint(oct) != s[i:] {
		return 0, false
	}
	return 12*(oct+base) + pc, true
}

// keyNotes: the notes of the key signature's scale, from the circle of fifths
func keyNotes(acc int, minor bool) []string {
	alter := map[byte]string{}
	for i, l := range []byte("FCGDAEB") {
		if i < acc {
			alter[l] = "♯"
		}
	}
	for i, l := range []byte("BEADGCF") {
		if i < -acc {
			alter[l] = "♭"
		}
	}
	// the tonic: fifths from C (major) or A (minor)
	letters := "CDEFGAB"
	start := 0
	if minor {
		start = 5
	}
	start = ((start+4*acc)%7 + 7) % 7
	var out []string
	for i := 0; i < 7; i++ {
		l := letters[(start+i)%7]
		out = append(out, string(l)+alter[l])
	}
	return out
}

// constStr gives the constant text of a value
func (in *Interp) constStr(st *State, v Val) (string, bool) {
	s, ok := v.(*StrV)
	if !ok {
		return "", false
	}
	if l, ok := s.lit(); ok {
		return l, true
	}
	var b []byte
	for _, g := range s.S {
		switch x := g.(type) {
		case *SegLit:
			b = append(b, x.S...)
		case *SegElem:
			n, ok := x.V.(*Num)
			if !ok {
				return "", false
			}
			c, ok := st.resolve(n).constVal()
			if !ok {
				return "", false
			}
			b = append(b, byte(c))
		default:
			return "", false
		}
	}
	return string(b), true
}

// call interprets a function on the given arguments
func (in *Interp) exec(st *State, fn *ssa.Function, args ...Val) []Outcome {
	var out []Outcome
	for _, o := range in.execFn(fn, args, nil, st.clone(), nil) {
		if !o.st.dead {
			out = append(out, o)
		}
	}
	return out
}

func (c *Ctx) needFn(rel, name string) *ssa.Function {
	f := c.P.fn(rel, name)
	if f == nil {
		c.Undecided(rel+"."+name, "", "no such function")
	}
	return f
}

func init() {
	register(&Check{ID: "C16", Shard: true,
		Rule: "The scale, note, controller, manufacturer and tag lookups are interpreted on every argument (accidental counts -128..127, all 21 note names and malformed ones, controller numbers 0..255, all one byte manufacturer identifiers and every identifier in the table, all tags) and compared with the circle of fifths, the pitch classes, the published controller and manufacturer numbers and the event names.",
		Run:  runC16})
	register(&Check{ID: "C17", Shard: true,
		Rule: "For every note number 0..127, sharp and flat spelling and both middle C conventions the formatting functions are interpreted; the text must denote the number (letter, accidental, octave) and, given to the interpreted parser, give the number back. Notes decoded from a track under a sharp and a flat key must carry names that denote them. Malformed names and names outside 0..127 must be rejected.",
		Run:  runC17})
}

func (c *Ctx) constText(key, where, what string, in *Interp, st *State, v Val, ok func(s string) string) bool {
	s, is := in.constStr(st, v)
	if !is {
		c.Undecided(key, where, what+": "+clip(vstr(v)))
		return false
	}
	if why := ok(s); why != "" {
		c.Fail(key, where, fmt.Sprintf("%s: %q %s", what, s, why))
		return false
	}
	c.Pass(key, s)
	return true
}

func runC17(c *Ctx) {
	fmtFn, parseFn, setFn := c.needFn("midi/events/midi", "FormatNote"), c.needFn("midi/events/midi", "ParseNote"), c.needFn("midi/context", "SetMiddleC")
	newCtx := c.needFn("midi/context", "NewContext")
	ctxT := c.P.typ("midi/context", "Context")
	if fmtFn == nil || parseFn == nil || setFn == nil || newCtx == nil || ctxT == nil {
		return
	}
	noteT := parseFn.Signature.Results().At(0).Type()
	where := c.P.pos(fmtFn.Pos())
	for mc, mcName := range []string{"C3", "C4"} {
		base := mc + 1
		// the states with the convention set and the contexts
		prep := func(in *Interp, how string) (*State, Val) {
			st := c.freshState(in)
			o := in.exec(st, setFn, numConst(int64(mc), 64, true))
			if len(o) != 1 {
				panic(stop{"SetMiddleC"})
			}
			st = o[0].st
			if how == "nil" {
				return st, &PtrV{}
			}
			o = in.exec(st, newCtx)
			if len(o) != 1 {
				panic(stop{"NewContext"})
			}
			st = o[0].st
			p := o[0].ret[0]
			m := c.P.method(ctxT, how)
			if m == nil {
				panic(stop{"no " + how})
			}
			o = in.exec(st, m, p)
			if len(o) != 1 {
				panic(stop{how})
			}
			return o[0].st, p
		}
		for _, how := range []string{"nil", "UseSharps", "UseFlats"} {
			for n := 0; n < 128; n++ {
				key := fmt.Sprintf("%s/%s/%d", mcName, how, n)
				in := c.trackInterp()
				c.guard(key, in, func() {
					st, ctx := prep(in, how)
					type call struct {
						name string
						f    *ssa.Function
						a    []Val
					}
					calls := []call{{"FormatNote", fmtFn, []Val{ctx, numConst(int64(n), 8, false)}}}
					if m := c.P.method(ctxT, "FormatNote"); m != nil && how != "nil" {
						calls = append(calls, call{"Context.FormatNote", m, []Val{ctx, numConst(int64(n), 8, false)}})
					}
					for _, q := range calls {
						for _, o := range in.exec(st, q.f, q.a...) {
							ok := c.constText("denotes/"+key+"/"+q.name, where, fmt.Sprintf("note %d with middle C %s, %s", n, mcName, how), in, o.st, o.ret[0], func(s string) string {
								switch v, ok := denotes(s, base); {
								case !ok:
									return "is not a note name"
								case v != n:
									return fmt.Sprintf("denotes note %d", v)
								case how == "UseFlats" && strings.Contains(s, "♯"), how == "UseSharps" && strings.Contains(s, "♭"):
									return "is in the wrong spelling"
								}
								return ""
							})
							if !ok {
								continue
							}
							for _, r := range in.exec(o.st, parseFn, ctx, o.ret[0]) {
								if !c.accepted("parsed/"+key, in, r.st, r.ret[1], fmt.Sprintf("name of note %d (middle C %s)", n, mcName), o.ret[0]) {
									continue
								}
								for _, v := range in.field(r.st, r.ret[0], noteT, "Value") {
									c.sameVal("parsed/"+key, where, fmt.Sprintf("parsed name of note %d (middle C %s)", n, mcName), in, v.st, v.val, numConst(int64(n), 8, false), o.ret[0])
								}
							}
						}
					}
				})
			}
		}
		// decoded notes
		for _, acc := range []int{3, -3} {
			for n := 0; n < 128; n++ {
				key := fmt.Sprintf("%s/decoded/%d accidentals/%d", mcName, acc, n)
				in := c.trackInterp()
				c.guard(key, in, func() {
					st, _ := prep(in, "nil")
					ks := strToElems([]Seg{&SegLit{string([]byte{0, 0xff, 0x59, 2, byte(int8(acc)), 0})}})
					note := func(status byte) []Seg {
						return strToElems([]Seg{&SegLit{string([]byte{0, status, byte(n), 64})}})
					}
					segs := append(append(append(append([]Seg{}, ks...), note(0x91)...), note(0x81)...), strToElems([]Seg{&SegLit{"\x00\xff\x2f\x00"}})...)
					for _, t := range in.decodeTrack(st, nil, segs) {
						if !c.accepted(key, in, t.st, t.err, "track", &SeqV{segs}) || !c.hasEvents(key, in, t, 4, &SeqV{segs}) {
							continue
						}
						for i := 1; i < 3; i++ {
							for _, f := range []string{"Note.Name", "Note.Alias"} {
								for _, v := range in.field(t.st, t.evs[i].val, t.evs[i].t, f) {
									c.constText(key+"/"+f, c.posOf(t.evs[i].t), fmt.Sprintf("%s of note %d decoded after a key signature with %d accidentals (middle C %s)", f, n, acc, mcName), in, v.st, v.val, func(s string) string {
										switch v, ok := denotes(s, base); {
										case !ok:
											return "is not a note name"
										case v != n:
											return fmt.Sprintf("denotes note %d", v)
										case acc < 0 && strings.Contains(s, "♯"), acc > 0 && strings.Contains(s, "♭"):
											return "is in the wrong spelling"
										}
										return ""
									})
								}
							}
						}
					}
				})
			}
		}
		// names that must be rejected, and names that must not
		bad := []string{"", "H4", "c4", "C", "4", "C♯", "C♯♯4", "C♭♯4", "C10", "C--1", "C-", "C+4", "Cb4", "C#4", " C4", "C4 ", "C4x", "xC4", "CC4", "C 4", "C4.5", "♯4", "C♯10", "C-10"}
		for oct := -9; oct <= 9; oct++ {
			for _, nm := range []string{"C", "C♯", "D♭", "D", "D♯", "E♭", "E", "F", "F♯", "G♭", "G", "G♯", "A♭", "A", "A♯", "B♭", "B"} {
				s := fmt.Sprintf("%s%d", nm, oct)
				if v, _ := denotes(s, base); v < 0 || v > 127 {
					bad = append(bad, s)
				} else {
					in := c.trackInterp()
					c.guard(mcName+"/name/"+s, in, func() {
						st, ctx := prep(in, "nil")
						for _, r := range in.exec(st, parseFn, ctx, strLit(s)) {
							key := mcName + "/name/" + s
							if !c.accepted(key, in, r.st, r.ret[1], "name", strLit(s)) {
								continue
							}
							for _, x := range in.field(r.st, r.ret[0], noteT, "Value") {
								c.sameVal(key, where, "note named "+s+" with middle C "+mcName, in, x.st, x.val, numConst(int64(v), 8, false), strLit(s))
							}
						}
					})
				}
			}
		}
		for _, s := range bad {
			in := c.trackInterp()
			key := fmt.Sprintf("%s/rejected/%q", mcName, s)
			c.guard(key, in, func() {
				st, ctx := prep(in, "nil")
				for _, r := range in.exec(st, parseFn, ctx, strLit(s)) {
					c.rejected(key, in, r.st, r.ret[1], fmt.Sprintf("note name %q (middle C %s)", s, mcName), strLit(s))
				}
			})
		}
	}
}

// ---------------------------------------------------------------- tables

var controllerNames = map[int]string{}

func init() {
	msb := map[int]string{0: "Bank Select", 1: "Modulation Wheel", 2: "Breath Controller", 4: "Foot Controller", 5: "Portamento Time", 6: "Data Entry", 7: "Channel Volume",
		8: "Balance", 10: "Pan", 11: "Expression Controller", 12: "Effect Control 1", 13: "Effect Control 2",
		16: "General Purpose Controller 1", 17: "General Purpose Controller 2", 18: "General Purpose Controller 3", 19: "General Purpose Controller 4"}
	for k, v := range msb {
		controllerNames[k] = v + " (MSB)"
		controllerNames[k+32] = v + " (LSB)"
	}
	for k, v := range map[int]string{64: "Sustain", 65: "Portamento", 66: "Sostenuto", 67: "Soft Pedal", 68: "Legato", 69: "Hold 2",
		70: "Sound Controller 1 ", 71: "Sound Controller 2 ", 72: "Sound Controller 3 ", 73: "Sound Controller 4 ", 74: "Sound Controller 5 ", 75: "Sound Controller 6 ",
		76: "Sound Controller 7 ", 77: "Sound Controller 8 ", 78: "Sound Controller 9 ", 79: "Sound Controller 10 ",
		80: "General Purpose Controller 5", 81: "General Purpose Controller 6", 82: "General Purpose Controller 7", 83: "General Purpose Controller 8", 84: "Portamento Control",
		88: "High Resolution Velocity Prefix", 91: "Effects 1 Depth", 92: "Effects 2 Depth", 93: "Effects 3 Depth", 94: "Effects 4 Depth", 95: "Effects 5 Depth",
		96: "Data Increment", 97: "Data Decrement", 98: "Non-Registered Parameter Number (LSB)", 99: "Non-Registered Parameter Number (MSB)",
		100: "Registered Parameter Number (LSB)", 101: "Registered Parameter Number (MSB)", 120: "All Sound Off", 121: "Reset All Controllers", 122: "Local Control",
		123: "All Notes Off", 124: "Omni Mode Off", 125: "Omni Mode On", 126: "Mono Mode On", 127: "Poly Mode On"} {
		controllerNames[k] = v
	}
}

var manufacturerNames = map[string]string{
	"7D": "Non-Commercial", "7E": "Non-RealTime Extensions", "7F": "RealTime Extensions", "01": "Sequential Circuits", "04": "Moog", "05": "Passport Designs", "06": "Lexicon",
	"07": "Kurzweil", "08": "Fender", "0A": "AKG Acoustics", "0F": "Ensoniq", "10": "Oberheim", "11": "Apple", "13": "Digidesign", "18": "Emu", "1A": "ART", "1C": "Eventide",
	"22": "Synthaxe", "24": "Hohner", "29": "PPG", "2B": "SSL", "2D": "Hinton Instruments", "2F": "Elka / General Music", "30": "Dynacord", "33": "Clavia (Nord)", "36": "Cheetah",
	"3E": "Waldorf Electronics Gmbh", "40": "Kawai", "41": "Roland", "42": "Korg", "43": "Yamaha", "44": "Casio", "47": "Akai", "48": "Japan Victor (JVC)", "4C": "Sony",
	"4E": "Teac Corporation", "51": "Fostex", "52": "Zoom", "000007": "Digital Music Corporation", "000009": "New England Digital", "00000E": "Alesis", "000015": "KAT",
	"000016": "Opcode", "00001A": "Allen & Heath Brenell", "00001B": "Peavey Electronics", "00001C": "360 Systems", "00001F": "Zeta Systems", "000020": "Axxes",
	"00003B": "Mark Of The Unicorn (MOTU)", "00004D": "Studio Electronics", "000050": "MIDI Solutions Inc", "000137": "Roger Linn Design", "000172": "Kilpatrick Audio",
	"000173": "iConnectivity", "000214": "Intellijel Designs Inc", "002011": "Forefront Technology", "002013": "Kenton Electronics", "00201F": "TC Electronic", "002020": "Doepfer",
	"002027": "Acorn Computer", "002029": "Focusrite / Novation", "002032": "Behringer", "002033": "Access Music Electronics", "00203C": "Elektron", "00204D": "Vermona",
	"002052": "Analogue Systems", "002069": "Elby Designs", "00206B": "Arturia", "002076": "Teenage Engineering", "002102": "Mutable Instruments", "002109": "Native Instruments",
	"002110": "ROLI Ltd", "00211A": "IK Multimedia", "00211C": "Modor Music", "00211D": "Ableton", "002127": "Expert Sleepers",
}

func runC16(c *Ctx) {
	// scales
	for mode, name := range []string{"MajorScale", "MinorScale"} {
		fn := c.needFn("midi/lib", name)
		if fn == nil {
			continue
		}
		t := fn.Signature.Results().At(0).Type()
		where := c.P.pos(fn.Pos())
		for acc := -128; acc < 128; acc++ {
			key := fmt.Sprintf("%s(%d)", name, acc)
			in := c.trackInterp()
			c.guard(key, in, func() {
				for _, o := range in.exec(c.freshState(in), fn, numConst(int64(acc), 8, true)) {
					ok, is := o.ret[1].(*BoolV)
					v := -1
					if is {
						v = o.st.evalCond(ok.C)
					}
					exists := acc >= -7 && acc <= 7
					if v < 0 {
						c.Undecided(key, where, "result unknown")
						continue
					}
					if (v == 1) != exists {
						c.Fail(key, where, fmt.Sprintf("%s found: %v", key, v == 1))
						continue
					}
					c.Pass(key, fmt.Sprint(v == 1))
					if !exists {
						continue
					}
					notes := keyNotes(acc, mode == 1)
					expect := func(path string, want Val) {
						rs := in.field(o.st, o.ret[0], t, path)
						if rs == nil {
							c.Undecided(key+"."+path, where, "no such field")
						}
						for _, r := range rs {
							c.sameVal(key+"."+path, where, key+"."+path, in, r.st, r.val, want, intConst(int64(acc)))
						}
					}
					expect("Accidentals", numConst(int64(acc), 8, true))
					expect("Type", numConst(int64(mode), 8, false))
					expect("Name", strLit(notes[0]+[]string{" major", " minor"}[mode]))
					for _, r := range in.field(o.st, o.ret[0], t, "Notes") {
						sl, ok := r.val.(*SliceV)
						if !ok {
							c.Undecided(key+".Notes", where, vstr(r.val))
							continue
						}
						segs := in.normSegs(r.st, in.sliceSegs(r.st, sl))
						if len(segs) != 7 {
							c.Fail(key+".Notes", where, fmt.Sprintf("%s has %d notes", key, len(segs)))
							continue
						}
						for i, g := range segs {
							e, ok := g.(*SegElem)
							if !ok {
								c.Undecided(key+".Notes", where, segString(g))
								continue
							}
							pc, _ := pitchClass(notes[i])
							for p, want := range map[string]Val{"Ord": numConst(int64(pc), 64, true), "Name": strLit(notes[i])} {
								for _, x := range in.field(r.st, e.V, sl.Elem, p) {
									c.sameVal(fmt.Sprintf("%s.Notes[%d].%s", key, i, p), where, fmt.Sprintf("%s.Notes[%d].%s", key, i, p), in, x.st, x.val, want, intConst(int64(acc)))
								}
							}
						}
					}
				}
			})
		}
	}
	// notes
	if fn := c.needFn("midi/lib", "LookupNote"); fn != nil {
		t := fn.Signature.Results().At(0).Type()
		where := c.P.pos(fn.Pos())
		for _, l := range "CDEFGAB" {
			for _, a := range []string{"", "♯", "♭"} {
				s := string(l) + a
				key := "note " + s
				in := c.trackInterp()
				c.guard(key, in, func() {
					for _, o := range in.exec(c.freshState(in), fn, strLit(s)) {
						if !c.accepted(key, in, o.st, o.ret[1], "note "+s, strLit(s)) {
							continue
						}
						pc, _ := pitchClass(s)
						for p, want := range map[string]Val{"Ord": numConst(int64(pc), 64, true), "Name": strLit(s)} {
							for _, x := range in.field(o.st, o.ret[0], t, p) {
								c.sameVal(key+"."+p, where, key+"."+p, in, x.st, x.val, want, strLit(s))
							}
						}
					}
				})
			}
		}
		for _, s := range []string{"", "H", "c", "C♯♯", "♯", "C#", "Db", "C4"} {
			in := c.trackInterp()
			key := fmt.Sprintf("note %q", s)
			c.guard(key, in, func() {
				for _, o := range in.exec(c.freshState(in), fn, strLit(s)) {
					c.rejected(key, in, o.st, o.ret[1], key, strLit(s))
				}
			})
		}
	}
	// controllers
	if fn := c.needFn("midi/lib", "LookupController"); fn != nil {
		t := fn.Signature.Results().At(0).Type()
		where := c.P.pos(fn.Pos())
		for id := 0; id < 256; id++ {
			key := fmt.Sprintf("controller %d", id)
			in := c.trackInterp()
			c.guard(key, in, func() {
				for _, o := range in.exec(c.freshState(in), fn, numConst(int64(id), 8, false)) {
					for _, x := range in.field(o.st, o.ret[0], t, "ID") {
						c.sameVal(key+".ID", where, key+".ID", in, x.st, x.val, numConst(int64(id), 8, false), intConst(int64(id)))
					}
					for _, x := range in.field(o.st, o.ret[0], t, "Name") {
						c.constText(key+".Name", where, key, in, x.st, x.val, func(s string) string {
							want, ok := controllerNames[id]
							if ok && !strings.HasPrefix(strings.ToLower(s), strings.ToLower(want)) {
								return "is not the name of controller " + fmt.Sprint(id) + " (" + want + ")"
							}
							if s == "" {
								return "is empty"
							}
							if !ok {
								for k, n := range controllerNames {
									if s == n {
										return fmt.Sprintf("is the name of controller %d", k)
									}
								}
							}
							return ""
						})
					}
				}
			})
		}
	}
	c.manufacturers()
	c.tags()
}

func (c *Ctx) manufacturers() {
	look, find := c.needFn("midi/lib", "LookupManufacturer"), c.needFn("midi/lib", "FindManufacturer")
	if look == nil || find == nil {
		return
	}
	t := look.Signature.Results().At(0).Type()
	where := c.P.pos(look.Pos())
	ids := map[string]bool{}
	for k := range manufacturerNames {
		ids[k] = true
	}
	for i := 0; i < 256; i++ {
		ids[fmt.Sprintf("%02X", i)] = true
		ids[fmt.Sprintf("0041%02X", i)] = true
		ids[fmt.Sprintf("01%04X", i)] = true
		ids[fmt.Sprintf("00%02X%02X", i, (i*7)&255)] = true
	}
	// the entries of the table itself: any package level map of manufacturers
	entries := map[string]string{} // name -> id
	in0 := c.trackInterp()
	st0 := c.freshState(in0)
	for _, m := range c.P.pkg("midi/lib").Members {
		g, ok := m.(*ssa.Global)
		if !ok {
			continue
		}
		mt, ok := g.Type().(*types.Pointer).Elem().Underlying().(*types.Map)
		if !ok || !types.Identical(mt.Elem(), t) {
			continue
		}
		id, ok := in0.globals[g]
		if !ok {
			continue
		}
		mv, ok := st0.get(id).(*MapV)
		if !ok {
			continue
		}
		mo, ok := st0.get(mv.Obj).(*MapObj)
		if !ok {
			continue
		}
		for _, e := range mo.E {
			var hex, name string
			for _, x := range in0.field(st0, e.V, t, "ID") {
				if sl, ok := x.val.(*SliceV); ok {
					for _, g := range in0.normSegs(st0, in0.sliceSegs(st0, sl)) {
						if el, ok := g.(*SegElem); ok {
							if n, ok := el.V.(*Num); ok {
								if v, ok := n.constVal(); ok {
									hex += fmt.Sprintf("%02X", v)
								}
							}
						}
					}
				}
			}
			for _, x := range in0.field(st0, e.V, t, "Name") {
				name, _ = in0.constStr(st0, x.val)
			}
			if hex == "" || name == "" {
				c.Undecided("manufacturer table", where, "entry "+vstr(e.V))
				continue
			}
			ids[hex] = true
			if o, dup := entries[name]; dup && o != hex {
				c.Fail("manufacturer "+name, where, fmt.Sprintf("the name %q is used for %s and %s", name, o, hex))
			} else {
				c.Pass("manufacturer "+name+" unique", "")
			}
			entries[name] = hex
			if strings.Contains(name, ",") {
				c.Fail("manufacturer "+name, where, fmt.Sprintf("the name %q contains the separator of the listing", name))
			}
		}
	}
	c.counts["manufacturers in the table"] = len(entries)
	names := map[string]string{}
	for n, h := range entries {
		names[h] = n
	}
	for _, hex := range sortedKeys(ids) {
		key := "manufacturer " + hex
		in := c.trackInterp()
		c.guard(key, in, func() {
			st := c.freshState(in)
			var segs []Seg
			for i := 0; i+1 < len(hex); i += 2 {
				var b int64
				fmt.Sscanf(hex[i:i+2], "%02X", &b)
				segs = append(segs, &SegElem{numConst(b, 8, false)})
			}
			for _, o := range in.exec(st, look, in.newSlice(st, segs, byteT)) {
				for _, x := range in.field(o.st, o.ret[0], t, "ID") {
					c.sameVal(key+".ID", where, key+".ID", in, x.st, x.val, &SeqV{segs}, &SeqV{segs})
				}
				for _, x := range in.field(o.st, o.ret[0], t, "Name") {
					c.constText(key+".Name", where, key, in, x.st, x.val, func(s string) string {
						if n, ok := manufacturerNames[hex]; ok && s != n {
							return fmt.Sprintf("is not the name of manufacturer %s (%s)", hex, n)
						} else if m, ok := names[hex]; ok && s != m {
							return fmt.Sprintf("is not the name in the table (%s)", m)
						} else if !ok {
							for h, n := range manufacturerNames {
								if n == s && h != hex {
									return "is the name of manufacturer " + h
								}
							}
						}
						return ""
					})
				}
			}
			name, ok := manufacturerNames[hex]
			if n, is := names[hex]; is {
				name, ok = n, true
			}
			if !ok {
				return
			}
			for _, o := range in.exec(st, find, strLit(name)) {
				if !c.accepted(key+" by name", in, o.st, o.ret[1], "manufacturer "+name, strLit(name)) {
					continue
				}
				for _, x := range in.field(o.st, o.ret[0], t, "ID") {
					c.sameVal(key+" by name", where, "manufacturer found for "+name, in, x.st, x.val, &SeqV{segs}, strLit(name))
				}
			}
		})
	}
	for _, s := range []string{"", "roland ", "Nobody", "<unknown>"} {
		in := c.trackInterp()
		key := fmt.Sprintf("manufacturer %q", s)
		c.guard(key, in, func() {
			for _, o := range in.exec(c.freshState(in), find, strLit(s)) {
				c.rejected(key, in, o.st, o.ret[1], key, strLit(s))
			}
		})
	}
}

func (c *Ctx) tags() {
	t := c.P.typ("midi/lib", "Tag")
	if t == nil {
		c.Undecided("tags", "", "no type lib.Tag")
		return
	}
	str, parse := c.P.method(t, "String"), c.P.method(t, "UnmarshalText")
	if str == nil || parse == nil {
		c.Undecided("tags", "", "lib.Tag has no String or UnmarshalText")
		return
	}
	where := c.P.pos(str.Pos())
	// the constants of the type, by value
	vals := map[int64]string{}
	sc := c.P.pkg("midi/lib").Pkg.Scope()
	for _, n := range sc.Names() {
		if k, ok := sc.Lookup(n).(*types.Const); ok && types.Identical(k.Type(), t) {
			var v int64
			fmt.Sscan(k.Val().ExactString(), &v)
			vals[v] = n
		}
	}
	w, sg, _ := numType(t)
	seen := map[string]string{}
	want := map[string]bool{}
	for _, k := range kinds {
		want[k.Tag] = true
	}
	var texts []string
	for v, n := range vals {
		v, n := v, n
		if strings.Contains(strings.ToLower(n), "unknown") {
			continue
		}
		in := c.trackInterp()
		func() {
			defer func() {
				if r := recover(); r != nil {
					c.Undecided("tag "+n, where, fmt.Sprint(r))
				}
			}()
			st := c.freshState(in)
			for _, o := range in.exec(st, str, numConst(v, w, sg)) {
				s, ok := in.constStr(o.st, o.ret[0])
				if !ok {
					c.Undecided("tag "+n, where, vstr(o.ret[0]))
					continue
				}
				if seen[s] != "" {
					c.Fail("tag "+n, where, fmt.Sprintf("%s and %s are both printed as %q", n, seen[s], s))
				} else if strings.EqualFold(strings.TrimPrefix(n, "Tag"), s) || !want[s] {
					c.Pass("tag "+n, s)
				} else {
					c.Fail("tag "+n, where, fmt.Sprintf("%s is printed as %q", n, s))
				}
				seen[s] = n
				texts = append(texts, s)
				p := in.zero(o.st, t)
				ptr := &PtrV{Obj: o.st.alloc(p)}
				for _, line := range []string{s, "   00 FF  tick:0  delta:480  " + s + "  xyz"} {
					for _, r := range in.exec(o.st, parse, ptr, in.newSlice(o.st, strToElems([]Seg{&SegLit{line}}), byteT)) {
						if !c.accepted("tag "+n+" parsed", in, r.st, r.ret[0], "tag "+s, strLit(line)) {
							continue
						}
						c.sameVal("tag "+n+" parsed", where, "tag parsed from "+s, in, r.st, in.load(r.st, ptr, nil), numConst(v, w, sg), strLit(line))
					}
				}
			}
		}()
	}
	for k := range want {
		if seen[k] == "" {
			c.Fail("tag "+k, where, fmt.Sprintf("no tag is printed as %q", k))
		}
	}
	// no tag is the beginning of another: which one is found would depend on the order of the table
	for _, a := range texts {
		for _, b := range texts {
			if a != b && a != "" && strings.HasPrefix(b, a) {
				c.Fail("tags "+a, where, fmt.Sprintf("%q is the beginning of %q", a, b))
			}
		}
	}
	in := c.trackInterp()
	c.guard("tag unknown", in, func() {
		st := c.freshState(in)
		ptr := &PtrV{Obj: st.alloc(in.zero(st, t))}
		for _, s := range []string{"", "Nonsense", "noteon", "   delta:0   "} {
			for _, r := range in.exec(st, parse, ptr, in.newSlice(st, strToElems([]Seg{&SegLit{s}}), byteT)) {
				c.rejected(fmt.Sprintf("tag %q", s), in, r.st, r.ret[0], fmt.Sprintf("tag %q", s), strLit(s))
			}
		}
	})
}
