package main

import (
	"fmt"
	"go/types"
	"regexp"
	"strconv"
	"strings"
	"time"
)

// Accepted documents (C10). The exported form of a symbolic file is taken and one number in it is replaced by a free
// number of any size. If the assembler accepts the document, the file it writes must decode again and carry that
// number in that place (or be the original file, where the number is redundant).

const wideMax = int64(1) << 40

// wide makes the free number
func (c *Ctx) wide(st *State, lo int64) *Num {
	if c.fixedX != nil {
		return intConst(*c.fixedX)
	}
	a := newAtom("X", 64, true)
	st.setRange(a, lo, wideMax)
	n := numAtom(a, 64, true)
	pinWide(st, n, lo)
	return st.resolve(n)
}

// forX runs f with a free number; if that leaves obligations undecided, with numbers spread over the range instead
func (c *Ctx) forX(in *Interp, lo int64, f func()) {
	n, us, seen := len(c.undec), c.undecSeen, cpMap(c.seenV)
	steps, max := in.steps, in.maxStep
	in.maxStep = in.steps + 500000
	ok := func() (ok bool) {
		defer func() {
			if r := recover(); r != nil {
				if _, is := r.(stop); !is {
					panic(r)
				}
				in.stack, in.sites = nil, nil
			}
		}()
		f()
		return true
	}()
	in.steps, in.maxStep = steps, max
	if ok && len(c.undec) == n {
		return
	}
	if verbose {
		fmt.Println("FORX", ok, len(c.undec)-n, c.undec[n:])
	}
	c.total -= c.undecSeen - us
	c.undec, c.undecSeen, c.seenV = c.undec[:n], us, seen
	var v []int64
	for x := int64(0); x <= 130; x++ {
		v = append(v, x)
	}
	for k := uint(8); k <= 40; k++ {
		v = append(v, 1<<k-1, 1<<k, 1<<k+1, 1<<k+2, 1<<k+4)
	}
	v = append(v, 200, 1000, 10000, 100000, -1, -2, -3, -4, -7, -8, -127, -128, -129, -252, -254, -255, -256, -32768, -65536, -1<<31, -1<<32, -1<<32+1)
	c.counts["numbers enumerated"] += len(v)
	for _, x := range v {
		if x < lo {
			continue
		}
		c.fixedX = &x
		f()
		in.steps = steps
	}
	c.fixedX = nil
}

// jleaf: a number in a JSON tree
type jleaf struct {
	path []string // keys, or #i in lists
	arr  bool     // the number is to be put in front of the list of numbers
}

func (l jleaf) String() string { return strings.Join(l.path, ".") }

func jleaves(n *JNode, path []string, out *[]jleaf) {
	add := func(s string) []string { return append(append([]string{}, path...), s) }
	switch n.Kind {
	case "obj":
		for i, k := range n.Keys {
			jleaves(n.Kids[i], add(k), out)
		}
	case "list":
		for i, k := range n.Kids {
			jleaves(k, add(fmt.Sprintf("#%d", i)), out)
		}
	case "num":
		*out = append(*out, jleaf{path, false})
	case "arr":
		*out = append(*out, jleaf{path, true})
	}
}

func (n *JNode) kid(key string) int {
	for i, k := range n.Keys {
		if k == key {
			return i
		}
	}
	if n.Kind == "list" {
		i := -1
		if fmt.Sscanf(key, "#%d", &i); i < len(n.Kids) {
			return i
		}
	}
	return -1
}

// with gives the tree with the number at the leaf replaced
func (n *JNode) with(l jleaf, x *Num) *JNode {
	m := *n
	if len(l.path) == 0 {
		if l.arr {
			m.Segs = append([]Seg{&SegElem{x}}, n.Segs...)
			m.Elem = types.Typ[types.Int64]
		} else {
			m.Num = x
		}
		return &m
	}
	i := n.kid(l.path[0])
	m.Kids = append([]*JNode{}, n.Kids...)
	m.Kids[i] = n.Kids[i].with(jleaf{l.path[1:], l.arr}, x)
	return &m
}

// at gives the number at the leaf
func (n *JNode) at(in *Interp, st *State, l jleaf) *Num {
	for _, k := range l.path {
		i := n.kid(k)
		if i < 0 {
			return nil
		}
		n = n.Kids[i]
	}
	if !l.arr {
		if n.Kind != "num" {
			return nil
		}
		return n.Num
	}
	if n.Kind != "arr" {
		return nil
	}
	v, _, ok := in.uncons(st, n.Segs)
	if !ok {
		return nil
	}
	x, _ := v.(*Num)
	return x
}

// carried judges an accepted document: what the file written says there
func (c *Ctx) carried(key, what string, in *Interp, st *State, got *Num, x *Num, bytes Val, original []Seg, show Val) {
	st.lowBits(x)
	if got != nil {
		eq, _ := in.valEqual(st, numConv(st, got, 64, true), st.resolve(x))
		if eq || sameBits(bitsOf(st, numConv(st, got, 64, true)), bitsOf(st, st.resolve(x))) {
			c.Pass(key, "carried: "+vstr(st.resolve(x)))
			return
		}
	}
	ok, why := in.same(st, bytes, &SeqV{in.normSegs(st, strToElems(original))}, show)
	switch {
	case ok == 1:
		c.Pass(key, "the number is redundant")
		return
	case ok < 0:
		if verbose {
			fmt.Println("PATH", strings.Join(st.pathString(), "; "))
		}
		c.Undecided(key, "", "redundant? "+why)
		return
	case got == nil:
		c.Fail(key, "", what+" is accepted and the file is changed, but does not carry it: "+why, st.pathString()...)
		return
	}
	c.sameVal(key, "", what+" is accepted and becomes", in, st, numConv(st, got, 64, true), st.resolve(x), show)
}

// written: the file an assembler wrote, decoded again
func (c *Ctx) written(key, what string, in *Interp, a encoded, show Val) []smfState {
	var out []smfState
	s, ok := a.bytes.(*SliceV)
	if !ok {
		c.Undecided(key, "", "assembled bytes unknown")
		return nil
	}
	for _, o := range in.decodeFile(a.st, in.bytesReader(a.st, in.normSegs(a.st, in.sliceSegs(a.st, s)))) {
		if !c.accepted(key+": well-formed", in, o.st, o.ret[1], "file written for "+what, show) {
			continue
		}
		if p, ok := o.ret[0].(*PtrV); ok && p.Obj != 0 {
			out = append(out, smfState{o.st, p})
		}
	}
	return out
}

func init() {
	register(&Check{ID: "C10", Shard: true,
		Rule: "For symbolic files (each kind with every value of its fields) the exported JSON document and the listing are taken and each number in them is in turn replaced by a free number in -2^40..2^40 (an additional element at the front for lists of numbers): if, on any path, the assembler accepts the document, the file it writes must be accepted by the decoder and, exported or listed again, must carry the number in that place, or must be the original file (the number is redundant). Undecided cases are re-examined for the numbers around every power of two.",
		Run:  runC10})
}

func runC10(c *Ctx) {
	pinRuns = 75
	c.wideDocs(func(key string) bool { return true })
}

// wideDocs runs the assemblers on documents with one free number
func (c *Ctx) wideDocs(want func(key string) bool) {
	restrict := func(in *Interp, st *State, evs []*evInput) {
		for _, e := range evs {
			fixFirst(st, e)
			switch {
			case e.k.Class == clsSysex:
				st.assumeEQ(linAddK(e.payN, 1, linConst(-3)))
			case e.k.Class == clsMeta && e.root != nil:
				e.root.Class, e.root.First = csText, csNoBl
				st.assumeEQ(linAddK(e.payN, 1, linConst(-5)))
				if e.k.Name != "SequencerSpecificEvent" {
					for i, b := range "hello" {
						st.pinTo(e.payElem(st, int64(i)), int64(b))
					}
				}
			case e.k.Name == "SMPTEOffset":
				fixData(st, e, 0x21, 2, 3, 4, 5)
			case e.k.Name == "TimeSignature":
				fixData(st, e, 3, 2, 24, 8)
			}
		}
	}
	done := map[string]bool{}
	c.onlyShape = func(key string) bool {
		for _, w := range []string{"long delta", "tracks", "no events", "two ", "notes and", "bank", "3 packets", "escape"} {
			if strings.Contains(key, w) {
				return false
			}
		}
		return true
	}
	c.fileTrips(func(in *Interp, key string, s smfState, file func(st *State) []Seg, show Val) {
		if done[key] && pin == nil { // the other states differ in the format and in what is not replaced
			return
		}
		done[key] = true
		c.wideJSON(in, key, s, file, show)
		c.wideText(in, key, s, file, show)
	}, restrict)
}

func (c *Ctx) wideJSON(in *Interp, key string, s smfState, file func(st *State) []Seg, show Val) {
	for _, j := range in.exportJSON(s.st.clone(), s.smf) {
		if in.errNil(j.st, j.err) != 1 {
			continue // C04
		}
		n, ok := in.nodeOf(j.st, j.bytes.(*SeqV).S)
		if !ok {
			c.Undecided(key+": json", "", "document unknown")
			continue
		}
		var leaves []jleaf
		jleaves(n, nil, &leaves)
		for _, l := range leaves {
			if strings.Contains(l.String(), "#1.event") || l.path[0] == "header" && key != "file/EndOfTrack" {
				continue
			}
			c.forX(in, -wideMax, func() {
				st := j.st.clone()
				x := c.wide(st, -wideMax)
				lkey := key + "/json/" + l.String()
				what := "a document with " + l.String() + " of " + vstr(x)
				show := &TupleV{[]Val{x, show}}
				in.show = []Val{show}
				doc := in.jsonBytes(st, n.with(l, x))
				for _, a := range in.assemble(st, "JSONAssembler", in.sliceSegs(st, doc)) {
					switch in.errNil(a.st, a.err) {
					case 0:
						c.Pass(lkey+": rejected", in.errDesc(a.err))
						continue
					case -1:
						c.Undecided(lkey, "", "error result unknown")
						continue
					}
					if strings.HasSuffix(l.String(), "PPQN") { // beyond 15 bits it is an SMPTE division
						a.st.assumeGE(linAddK(linScale(a.st.resolve(x).L, -1), 1, linConst(0x7fff)))
						if a.st.dead {
							continue
						}
					}
					for _, w := range c.written(lkey, what, in, a, show) {
						for _, e := range in.exportJSON(w.st, w.smf) {
							m, ok := in.nodeOf(e.st, e.bytes.(*SeqV).S)
							if in.errNil(e.st, e.err) != 1 || !ok {
								c.Undecided(lkey, "", "second export")
								continue
							}
							c.carried(lkey, what, in, e.st, m.at(in, e.st, l), x, a.bytes, file(e.st), show)
						}
					}
				}
			})
		}
	}
}

// a number in a line of a listing: a segment, or a part of a literal
type tleaf struct {
	seg      int
	from, to int // in a literal
	n        *Num
	label    string
}

func decSeg(g Seg) *Num {
	if x, ok := g.(*SegSpan); ok && x.R.Fmt != nil && x.R.Fmt.Kind == "dec" && x.Off.isConst() && x.Off.C == 0 {
		return x.R.Fmt.N
	}
	return nil
}

func joinLines(lines [][]Seg) []Seg {
	var out []Seg
	for _, l := range lines {
		out = append(out, l...)
		out = append(out, &SegLit{"\n"})
	}
	return mergeLits(out)
}

var numRe = regexp.MustCompile(`(^|[ :/])([0-9]+)($|[ ,/])`)

// the status or event type in front of the tag
var typeCol = regexp.MustCompile(`^[0-9]{2} [A-Z]`)

// numbers: the numbers of a line, after the bytes
func lineNumbers(line []Seg) []tleaf {
	var out []tleaf
	on := false
	label := ""
	for i, g := range line {
		if l, ok := g.(*SegLit); ok {
			s, off := l.S, 0
			if !on {
				for _, m := range []string{"tick:", " MThd "} {
					if k := strings.Index(s, m); k >= 0 {
						on, off = true, k
					}
				}
				if !on {
					continue
				}
			}
			for off < len(s) {
				m := numRe.FindStringSubmatchIndex(s[off:])
				if m == nil {
					break
				}
				v, err := strconv.ParseInt(s[off+m[4]:off+m[5]], 10, 62)
				if err == nil && !typeCol.MatchString(s[off+m[4]:]) {
					out = append(out, tleaf{i, off + m[4], off + m[5], intConst(v), lastWord(label + s[:off+m[4]])})
				}
				off += m[5]
			}
			label += s
			continue
		}
		if n := decSeg(g); n != nil && on {
			out = append(out, tleaf{i, 0, 0, n, lastWord(label)})
			label += "N"
		}
	}
	return out
}

func lastWord(s string) string {
	s = strings.TrimRight(s, " ")
	if i := strings.LastIndexAny(s, " ,"); i >= 0 {
		s = s[i+1:]
	}
	return s
}

func (c *Ctx) wideText(in *Interp, key string, s smfState, file func(st *State) []Seg, show Val) {
	for _, j := range in.disassemble(s.st.clone(), s.smf) {
		if in.errNil(j.st, j.err) != 1 {
			continue // C05
		}
		lines, ok := in.textLines(j.st, mergeLits(in.normSegs(j.st, j.bytes.(*SeqV).S)))
		if !ok {
			c.Undecided(key+": text", "", "lines unknown")
			continue
		}
		events := 0
		for i, l := range lines {
			leaves := lineNumbers(l)
			if len(leaves) == 0 {
				continue
			}
			if i > 0 {
				events++
			}
			if i == 0 != (key == "file/EndOfTrack") || events > 1 {
				continue
			}
			for k, t := range leaves {
				name := fmt.Sprintf("%s/text/%d %s", key, k, t.label)
				t0 := time.Now()
				c.forX(in, 1, func() { c.wideLine(in, name, j.st.clone(), lines, i, k, t, file, show) })
				for _, x := range []int64{0, -5} {
					c.fixedX = &x
					c.wideLine(in, name, j.st.clone(), lines, i, k, t, file, show)
				}
				c.fixedX = nil
				if verbose {
					fmt.Println("LEAF", name, time.Since(t0))
				}
			}
		}
	}
}

func (c *Ctx) wideLine(in *Interp, key string, st *State, lines [][]Seg, i, k int, t tleaf, file func(st *State) []Seg, show Val) {
	var x *Num
	var text []Seg
	x = c.wide(st, 1)
	if v, ok := x.constVal(); ok {
		text = []Seg{&SegLit{fmt.Sprint(v)}}
	} else {
		r := fmtRoot(st, "dec", x)
		text = []Seg{&SegSpan{r, linConst(0), r.Len.L}}
	}
	l := lines[i]
	var nl []Seg
	nl = append(nl, l[:t.seg]...)
	if lit, ok := l[t.seg].(*SegLit); ok {
		nl = append(nl, &SegLit{lit.S[:t.from]})
		nl = append(nl, text...)
		nl = append(nl, &SegLit{lit.S[t.to:]})
	} else {
		nl = append(nl, text...)
	}
	nl = append(nl, l[t.seg+1:]...)
	all := append([][]Seg{}, lines...)
	all[i] = nl
	what := "a listing with " + t.label + " " + vstr(x)
	show = &TupleV{[]Val{x, show}}
	in.show = []Val{show}
	for _, a := range in.assemble(st, "TextAssembler", joinLines(all)) {
		switch in.errNil(a.st, a.err) {
		case 0:
			c.Pass(key+": rejected", in.errDesc(a.err))
			continue
		case -1:
			c.Undecided(key, "", "error result unknown")
			continue
		}
		if strings.HasSuffix(t.label, "time:") { // beyond 15 bits it is an SMPTE division
			a.st.assumeGE(linAddK(linScale(a.st.resolve(x).L, -1), 1, linConst(0x7fff)))
			if a.st.dead {
				continue
			}
		}
		for _, w := range c.written(key, what, in, a, show) {
			for _, e := range in.disassemble(w.st, w.smf) {
				ls, ok := in.textLines(e.st, mergeLits(in.normSegs(e.st, e.bytes.(*SeqV).S)))
				if in.errNil(e.st, e.err) != 1 || !ok || i >= len(ls) {
					c.Undecided(key, "", "second listing")
					continue
				}
				var got *Num
				if n := lineNumbers(ls[i]); k < len(n) {
					got = n[k].n
				}
				c.carried(key, what, in, e.st, got, x, a.bytes, file(e.st), show)
			}
		}
	}
}

// lowBits: the high bits of a number in a known range
func (st *State) lowBits(n *Num) {
	if len(n.L.T) != 1 || n.L.C != 0 || n.L.T[0].K != 1 {
		return
	}
	a := n.L.T[0].A
	lo, hi := st.rangeLin(n.L)
	if lo < 0 || hi >= int64(1)<<62 {
		return
	}
	for b := 0; b < a.W; b++ {
		if b >= 62 || hi < int64(1)<<uint(b) {
			st.setBit(Bit{a, b}, 0)
		}
	}
}

func fixData(st *State, e *evInput, v ...int) {
	for i, x := range v {
		st.pinTo(e.data[i], int64(x))
	}
}
