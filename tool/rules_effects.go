package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// deepSame compares two values in one state, following pointers: 1 same, 0 different, -1 unknown
func (in *Interp) deepSame(st *State, a, b Val, path string, depth int) (int, string) {
	if depth > 12 || vkey(a) == vkey(b) {
		return 1, ""
	}
	all := func(n int, f func(i int) (Val, Val, string)) (int, string) {
		res, why := 1, ""
		for i := 0; i < n; i++ {
			x, y, p := f(i)
			switch r, w := in.deepSame(st, x, y, path+p, depth+1); r {
			case 0:
				return 0, w
			case -1:
				res, why = -1, w
			}
		}
		return res, why
	}
	switch x := a.(type) {
	case *PtrV:
		y, ok := b.(*PtrV)
		if !ok {
			return -1, path
		}
		if x.NilPred != "" || y.NilPred != "" {
			return -1, path
		}
		if x.Obj == 0 || y.Obj == 0 {
			if x.Obj == y.Obj {
				return 1, ""
			}
			return 0, path + ": nil and not nil"
		}
		return in.deepSame(st, in.load(st, x, nil), in.load(st, y, nil), path, depth+1)
	case *StructV:
		y, ok := b.(*StructV)
		if !ok || !types.Identical(x.T, y.T) || len(x.F) != len(y.F) {
			return -1, path
		}
		s, _ := x.T.Underlying().(*types.Struct)
		return all(len(x.F), func(i int) (Val, Val, string) {
			n := fmt.Sprint(i)
			if s != nil {
				n = s.Field(i).Name()
			}
			return x.F[i], y.F[i], "." + n
		})
	case *IfaceV:
		y, ok := b.(*IfaceV)
		if !ok {
			return -1, path
		}
		if !types.Identical(x.T, y.T) {
			return 0, path + ": " + x.T.String() + " and " + y.T.String()
		}
		return in.deepSame(st, x.V, y.V, path, depth+1)
	case *SliceV:
		y, ok := b.(*SliceV)
		if !ok {
			return -1, path
		}
		p, q := in.normSegs(st, in.sliceSegs(st, x)), in.normSegs(st, in.sliceSegs(st, y))
		elems := func(l []Seg) bool {
			for _, g := range l {
				if _, ok := g.(*SegElem); !ok {
					return false
				}
			}
			return true
		}
		if elems(p) && elems(q) {
			if len(p) != len(q) {
				return 0, fmt.Sprintf("%s: %d and %d elements", path, len(p), len(q))
			}
			return all(len(p), func(i int) (Val, Val, string) {
				return p[i].(*SegElem).V, q[i].(*SegElem).V, fmt.Sprintf("[%d]", i)
			})
		}
		if e, _ := in.seqEqual(st, p, q); e {
			return 1, ""
		}
		return in.sameLeaf(st, a, b, path)
	}
	return in.sameLeaf(st, a, b, path)
}

func (in *Interp) sameLeaf(st *State, a, b Val, path string) (int, string) {
	switch a.(type) {
	case *Num, *StrV, *BoolV, *SliceV:
		r, d := in.same(st, a, b, in.show...)
		if r != 1 {
			return r, path + ": " + d
		}
		return 1, ""
	}
	if vkey(in.resolveVal(st, a)) == vkey(in.resolveVal(st, b)) {
		return 1, ""
	}
	return -1, path
}

func (c *Ctx) mine() bool { return c.shards <= 1 || c.shard == 0 }

func runC20(c *Ctx) {
	if c.mine() {
		e := newEffects(c.P)
		rs := e.reach(c.P.executes())
		c.counts["functions reachable from the commands"] = len(rs)
		if len(c.P.executes()) == 0 {
			c.Undecided("globals", "", "no command found")
		}
		for _, fn := range c.P.fns {
			if !rs[fn] || fn.Name() == "init" {
				continue
			}
			c.funcs[fn.String()] = true
			bad := false
			for r, at := range e.sum[fn].writes {
				if r.kind == "global" && at.fn == fn && c.P.isRepoPkg(r.g.Pkg.Pkg) {
					bad = true
					where := c.P.pos(at.instr.Pos())
					c.Fail("global/"+fn.String()+"/"+r.g.Name(), where, fn.String()+", which the commands call, writes the package variable "+r.g.String()+" ("+at.what+")")
				} else if r.kind == "global" && c.P.isRepoPkg(r.g.Pkg.Pkg) && !rs[at.fn] {
					bad = true
				} else if r.kind == "global" && at.fn != fn && c.P.isRepoPkg(r.g.Pkg.Pkg) {
					// written by a callee through a pointer it is given
					if _, own := e.sum[at.fn].writes[r]; !own {
						bad = true
						c.Fail("global/"+fn.String()+"/"+r.g.Name(), c.P.pos(at.instr.Pos()), fn.String()+" has the package variable "+r.g.String()+" written by "+at.fn.String()+" ("+at.what+")")
					}
				}
			}
			if !bad {
				c.Pass("global/"+fn.String(), fn.String()+" writes no package variable")
			}
		}
	}
	mtrk := c.P.typ("midi", "MTrk")
	smfT := c.P.typ("midi", "SMF")
	if mtrk == nil || smfT == nil {
		c.Undecided("tracks", "", "no MTrk or SMF type")
		return
	}
	eventsOf := func(in *Interp, st *State, smf *PtrV, n int) Val {
		rs := in.field(st, smf, smfT, "Tracks")
		if len(rs) != 1 {
			panic(stop{"Tracks"})
		}
		sl, ok := rs[0].val.(*SliceV)
		if !ok {
			panic(stop{"Tracks"})
		}
		segs := in.normSegs(st, in.sliceSegs(st, sl))
		if n >= len(segs) {
			panic(stop{"number of tracks"})
		}
		el, ok := segs[n].(*SegElem)
		if !ok {
			panic(stop{"track list"})
		}
		ev := in.field(st, el.V, types.NewPointer(mtrk), "Events")
		if len(ev) != 1 {
			panic(stop{"Events"})
		}
		return ev[0].val
	}
	for _, k1 := range kinds {
		if !c.kindHas(k1) || k1.Name == "EndOfTrack" {
			continue
		}
		for _, k2 := range kinds {
			if !c.kindHas(k2) || k2.Name == "EndOfTrack" {
				continue
			}
			if k1.Name == "SysExContinuationMessage" || k2.Name == "SysExContinuationMessage" {
				continue // needs a SysEx message before it
			}
			if k2.Class == clsMeta && k2.Name != "KeySignature" && k1 != k2 && c.Tier != "thorough" {
				continue
			}
			if k1.Class == clsMeta && k1.Name != "KeySignature" && k2.Name != "NoteOn" && k1 != k2 && c.Tier != "thorough" {
				continue
			}
			key := "tracks/" + k1.Name + " then " + k2.Name
			in := c.trackInterp()
			c.guard(key, in, func() {
				st0 := c.freshState(in)
				mk := func(k *Kind) []*evInput {
					t := []*evInput{k.build(in, st0, 1, 1), kindNamed("EndOfTrack").build(in, st0, 1, 1)}
					for _, e := range t {
						minimal(st0, e.delta.L, 1)
					}
					return t
				}
				t1, t2 := mk(k1), mk(k2)
				if k1.Name == "Controller" && k2.Name == "ProgramChange" { // a bank select on the same channel
					for b := 0; b < 8; b++ {
						st0.setBit(Bit{t1[0].data[0].L.T[0].A, b}, 0)
					}
					for b := 0; b < 4; b++ {
						st0.setBit(Bit{t1[0].status.L.T[0].A, b}, 5>>uint(b)&1)
						st0.setBit(Bit{t2[0].status.L.T[0].A, b}, 5>>uint(b)&1)
					}
				} else {
					fixFirst(st0, t1...)
					if k1.Name != "KeySignature" || k2.Class == clsSysex || k2.Name == "SequencerSpecificEvent" {
						fixFirst(st0, t2...)
					}
				}
				if k1.Name == "KeySignature" { // any key: three flats
					for b := 0; b < 8; b++ {
						st0.setBit(Bit{t1[0].data[0].L.T[0].A, b}, 0xfd>>uint(b)&1)
					}
				}
				if st0.dead {
					return
				}
				n := 0
				for _, s1 := range seqStates(in, st0, t1, false) {
					for _, s2 := range seqStates(in, s1, t2, false) {
						two := midiFileOf(in, s2, [][]*evInput{t1, t2})
						one := midiFileOf(in, s2, [][]*evInput{t2})
						show := &SeqV{two(s2, [][]*evInput{t1, t2})}
						in.show = []Val{show}
						for _, a := range in.loadFile(s2, one(s2, [][]*evInput{t2})) {
							for _, b := range in.loadFile(a.st, two(a.st, [][]*evInput{t1, t2})) {
								n++
								x, y := eventsOf(in, b.st, b.smf, 1), eventsOf(in, b.st, a.smf, 0)
								switch r, why := in.deepSame(b.st, x, y, "Events", 0); r {
								case 1:
									c.Pass(key, "second track decodes as by itself")
								case 0:
									c.Fail(key, "", "a track with "+k2.Name+" decodes differently after a track with "+k1.Name+": "+why, b.st.trace...)
								default:
									c.Undecided(key, "", why)
								}
							}
						}
					}
				}
			})
		}
	}
	// a running status does not reach into the next track
	for _, k := range kinds {
		if k.Class != clsMidi {
			continue
		}
		key := "running status/" + k.Name
		in := c.trackInterp()
		c.guard(key, in, func() {
			st0 := c.freshState(in)
			e1, e2 := kindNamed("EndOfTrack").build(in, st0, 1, 1), kindNamed("EndOfTrack").build(in, st0, 1, 1)
			d := k.build(in, st0, 1, 1)
			fixFirst(st0, d)
			r := running(in, st0, d, "second")
			t := [][]*evInput{{d, e1}, {r, e2}}
			for _, e := range []*evInput{d, r, e1, e2} {
				minimal(st0, e.delta.L, 1)
			}
			f := midiFileOf(in, st0, t)(st0, t)
			for _, o := range in.decodeFile(st0, in.bytesReader(st0, f)) {
				c.rejected(key, in, o.st, o.ret[1], "a track that begins with data bytes", &SeqV{f})
			}
		})
	}
}

func runC25(c *Ctx) {
	ops := []struct{ pkg, typ, fn string }{
		{"midi", "SMF", "Validate"}, {"ops/disassemble", "Disassemble", "Print"}, {"ops/export", "Export", "Export"}, {"ops/notes", "Notes", "Execute"}, {"ops/click", "ClickTrack", "Execute"},
	}
	if c.mine() {
		e := newEffects(c.P)
		smfT := c.P.typ("midi", "SMF")
		check := func(fn *ssa.Function) {
			c.funcs[fn.String()] = true
			for i, p := range fn.Params {
				if !c.P.holdsFile(p.Type(), smfT) {
					continue
				}
				c.counts["functions given a file"]++
				bad := false
				for r, at := range e.sum[fn].writes {
					if r.kind == "param" && r.idx == i {
						bad = true
						c.Fail("effect/"+fn.String()+"/"+c.P.pos(at.instr.Pos()), c.P.pos(at.instr.Pos()), fn.String()+" writes to the file it is given: "+at.what+" in "+at.fn.String())
					}
				}
				if !bad {
					c.Pass("effect/"+fn.String(), fn.String()+" writes nothing reachable from its parameter "+p.Name())
				}
			}
		}
		// everything the read-only operations call that is given (part of) the file
		var from []*ssa.Function
		for _, o := range ops {
			if t := c.P.typ(o.pkg, o.typ); t != nil {
				if fn := c.P.method(t, o.fn); fn != nil {
					from = append(from, fn)
					continue
				}
			}
			c.Undecided("effect/"+o.pkg+"."+o.typ+"."+o.fn, "", "operation not found")
		}
		for fn := range e.reach(from) {
			_ = fn
		}
		for _, fn := range from {
			check(fn)
		}
		for _, fn := range c.P.fns {
			if strings.HasSuffix(fnPkg(fn).Path(), "/commands") && fn.Synthetic == "" && fn.Name() != "Execute" && !strings.Contains(fn.String(), "transpose") && !strings.Contains(fn.String(), "humanise") {
				check(fn)
			}
		}
	}
	smfT := c.P.typ("midi", "SMF")
	fn := c.P.method(types.NewPointer(smfT), "Validate")
	unchanged := func(in *Interp, key, what string, s0 *State, s1 *State, smf *PtrV) {
		n := 0
		for _, id := range in.reachable(s0, smf) {
			a, b := s0.get(id), s1.get(id)
			if vkey(a) == vkey(b) {
				n++
				continue
			}
			if r, why := in.deepSame(s1, a, b, fmt.Sprintf("%T", a), 10); r == 0 {
				c.Fail(key+": "+what, "", what+" changes the file: "+why, s1.trace...)
				return
			} else if r < 0 {
				c.Undecided(key+": "+what, "", "object after "+what+": "+why)
				return
			}
			n++
		}
		c.Pass(key+": "+what, fmt.Sprintf("%d objects unchanged by %s", n, what))
	}
	c.fileTrips(func(in *Interp, key string, s smfState, file func(st *State) []Seg, show Val) {
		if fn != nil {
			st := s.st.clone()
			for _, r := range in.callMethod(st, fn, s.smf, nil) {
				if !r.st.dead {
					unchanged(in, key, "validating", s.st, r.st, s.smf)
				}
			}
		}
		for _, j := range in.exportJSON(s.st.clone(), s.smf) {
			unchanged(in, key, "exporting", s.st, j.st, s.smf)
		}
		for _, j := range in.disassemble(s.st.clone(), s.smf) {
			unchanged(in, key, "disassembling", s.st, j.st, s.smf)
		}
	}, func(in *Interp, st *State, evs []*evInput) {
		for _, e := range evs {
			if e.k.Name == "SequencerSpecificEvent" || e.k.Name == "SysExMessage" {
				fixFirst(st, e) // a known manufacturer
			}
		}
	})
}

// holdsFile: the type is the file, a track or an event, or leads to one
func (p *Program) holdsFile(t types.Type, smf types.Type) bool {
	if pt, ok := t.(*types.Pointer); ok {
		t = pt.Elem()
	}
	return types.Identical(t, smf) || t.String() == p.Mod+"/midi.MTrk"
}

// reachable: the objects that can be reached from a pointer
func (in *Interp) reachable(st *State, p *PtrV) []int {
	seen := map[int]bool{}
	var out []int
	var visit func(v Val)
	seg := func(l []Seg) {
		for _, g := range l {
			if e, ok := g.(*SegElem); ok {
				visit(e.V)
			}
		}
	}
	visit = func(v Val) {
		id := 0
		switch x := v.(type) {
		case *PtrV:
			id = x.Obj
		case *SliceV:
			id = x.Obj
		case *MapV:
			id = x.Obj
		case *IfaceV:
			visit(x.V)
		case *StructV:
			for _, f := range x.F {
				visit(f)
			}
		case *SeqV:
			seg(x.S)
		case *ArrayV:
			seg(x.S)
		}
		if id != 0 && !seen[id] {
			seen[id] = true
			out = append(out, id)
			visit(st.get(id))
		}
	}
	visit(p)
	return out
}
