package main

import (
	"fmt"
	"regexp"
	"regexp/syntax"
	"strconv"
	"strings"
	"unicode"
)

// ---------------------------------------------------------------- character classes

type cset []rune // sorted pairs lo,hi

var (
	csAny   = cset{0, unicode.MaxRune}
	csDigit = cset{'0', '9'}
	csHex   = cset{'0', '9', 'A', 'F'}
	csSpace = cset{'\t', '\n', '\f', '\r', ' ', ' '}
	csText  = cset{1, 9, 0xb, 0xc, 0xe, unicode.MaxRune} // no NUL, no line break
	csNoBl  = cset{1, 8, 0xb, 0xb, 0xe, 0x1f, 0x21, unicode.MaxRune}
)

func csOne(r rune) cset { return cset{r, r} }

func csUnion(a, b cset) cset {
	var m [][2]rune
	for i := 0; i+1 < len(a); i += 2 {
		m = append(m, [2]rune{a[i], a[i+1]})
	}
	for i := 0; i+1 < len(b); i += 2 {
		m = append(m, [2]rune{b[i], b[i+1]})
	}
	for i := range m {
		for j := i + 1; j < len(m); j++ {
			if m[j][0] < m[i][0] {
				m[i], m[j] = m[j], m[i]
			}
		}
	}
	var out cset
	for _, p := range m {
		if n := len(out); n > 0 && p[0] <= out[n-1]+1 {
			if p[1] > out[n-1] {
				out[n-1] = p[1]
			}
			continue
		}
		out = append(out, p[0], p[1])
	}
	return out
}

func csInter(a, b cset) cset {
	var out cset
	for i := 0; i+1 < len(a); i += 2 {
		for j := 0; j+1 < len(b); j += 2 {
			lo, hi := a[i], a[i+1]
			if b[j] > lo {
				lo = b[j]
			}
			if b[j+1] < hi {
				hi = b[j+1]
			}
			if lo <= hi {
				out = append(out, lo, hi)
			}
		}
	}
	return out
}

func csEq(a, b cset) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func csSub(a, b cset) bool { return csEq(csUnion(csInter(a, b), nil), csUnion(a, nil)) }

// instSet: the runes an instruction accepts
func instSet(i *syntax.Inst) cset {
	switch i.Op {
	case syntax.InstRuneAny:
		return csAny
	case syntax.InstRuneAnyNotNL:
		return cset{0, 9, 11, unicode.MaxRune}
	}
	var out cset
	if len(i.Rune) == 1 {
		out = csOne(i.Rune[0])
		if syntax.Flags(i.Arg)&syntax.FoldCase != 0 {
			for r := unicode.SimpleFold(i.Rune[0]); r != i.Rune[0]; r = unicode.SimpleFold(r) {
				out = csUnion(out, csOne(r))
			}
		}
		return out
	}
	for j := 0; j+1 < len(i.Rune); j += 2 {
		out = append(out, i.Rune[j], i.Rune[j+1])
	}
	return csUnion(out, nil)
}

// ---------------------------------------------------------------- structured strings as runs of characters

type tblock struct {
	lens   []int
	expand func(n int) []cset
	rigid  bool // one length: positions inside it are meaningful
}

func sampleLens(lo, hi int64) []int {
	if lo < 0 {
		lo = 0
	}
	if hi < lo {
		hi = lo
	}
	var out []int
	add := func(n int64) {
		if n > hi || n > 400 {
			return
		}
		for _, x := range out {
			if x == int(n) {
				return
			}
		}
		out = append(out, int(n))
	}
	add(lo)
	add(lo + 1)
	add(lo + 2)
	if hi <= lo+24 {
		add(hi)
	}
	return out
}

func repeatSet(c cset, n int) []cset {
	out := make([]cset, n)
	for i := range out {
		out[i] = c
	}
	return out
}

// segClass: the characters a segment may contain
func (in *Interp) segClass(st *State, g Seg) cset {
	var out cset
	switch x := g.(type) {
	case *SegLit:
		for _, r := range x.S {
			out = csUnion(out, csOne(r))
		}
		return out
	case *SegElem:
		if n, ok := x.V.(*Num); ok {
			lo, hi := st.rangeLin(st.resolve(n).L)
			if a := singleAtom(n); a != nil && a.Op == "elem" && a.Root != nil && n.W == 8 {
				if r := a.Root; r.Class != nil || r.Fmt != nil || runeSrc[r.ID] != nil {
					return in.segClass(st, &SegSpan{r, linConst(0), r.Len.L})
				}
			}
			if lo >= 0 && (hi < 0x80 || n.W > 8) {
				return cset{rune(lo), rune(hi)}
			}
		}
		return csAny
	case *SegComp:
		if !x.Str {
			return csAny
		}
		for _, e := range x.El {
			s, ok := e.(*StrV)
			if !ok {
				return csAny
			}
			for _, y := range s.S {
				out = csUnion(out, in.segClass(st, y))
			}
		}
		return out
	case *SegSpan:
		r := x.R
		if r.Class != nil {
			return r.Class
		}
		if f := r.Fmt; f != nil {
			switch {
			case f.Kind == "dec":
				if lo, _ := st.rangeLin(st.resolve(f.N).L); lo < 0 {
					return cset{'-', '-', '0', '9'}
				}
				return csDigit
			case strings.HasPrefix(f.Kind, "dec"):
				return cset{'-', '-', '0', '9'}
			case f.Kind == "hex2":
				return csHex
			case f.Kind == "hexlist":
				return cset{' ', ' ', '0', '9', 'A', 'F'}
			case f.Kind == "pad" || f.Kind == "padr":
				out = csOne(' ')
				fallthrough
			case strings.HasPrefix(f.Kind, "fn:strings.Trim"):
				if a, ok := f.Args[0].(*StrV); ok {
					for _, y := range a.S {
						out = csUnion(out, in.segClass(st, y))
					}
					return out
				}
				return csAny
			case f.Kind == "prefix" || f.Kind == "repeat":
				for _, y := range f.Segs {
					out = csUnion(out, in.segClass(st, y))
				}
				return out
			}
		}
		if src, ok := runeSrc[r.ID]; ok {
			return in.segClass(st, src)
		}
	}
	return csAny
}

func digits(v int64) int64 { return int64(len(strconv.FormatInt(v, 10))) }

func (in *Interp) textBlock(st *State, g Seg) *tblock {
	switch x := g.(type) {
	case *SegLit:
		var cs []cset
		for _, r := range x.S {
			cs = append(cs, csOne(r))
		}
		return &tblock{[]int{len(cs)}, func(int) []cset { return cs }, true}
	case *SegElem:
		c := in.segClass(st, g)
		return &tblock{[]int{1}, func(int) []cset { return []cset{c} }, true}
	case *SegComp:
		lo, hi := st.rangeLin(x.N)
		var el []cset
		for _, e := range x.El {
			s, ok := e.(*StrV)
			if !x.Str || !ok {
				el = nil
				break
			}
			for _, y := range s.S {
				b := in.textBlock(st, y)
				if len(b.lens) != 1 {
					el = nil
					break
				}
				el = append(el, b.expand(b.lens[0])...)
			}
		}
		if el != nil {
			return &tblock{lens: sampleLens(lo, hi), expand: func(n int) []cset {
				var out []cset
				for i := 0; i < n; i++ {
					out = append(out, el...)
				}
				return out
			}}
		}
	case *SegSpan:
		whole := st.proveEQ(x.Off) && st.proveEQ(linSub(x.N, x.R.Len.L))
		if f := x.R.Fmt; f != nil && whole {
			switch f.Kind {
			case "dec":
				lo, hi := st.rangeLin(st.resolve(f.N).L)
				min, max := digits(lo), digits(hi)
				if lo < 0 && hi >= 0 {
					min = 1
					if max < digits(lo) {
						max = digits(lo)
					}
				} else if min > max {
					min, max = max, min
				}
				return &tblock{lens: sampleLens(min, max), rigid: min == max, expand: func(n int) []cset {
					out := repeatSet(csDigit, n)
					if n == 0 {
						return out
					}
					var first cset
					if hi >= 0 && digits(hi) >= int64(n) {
						first = csDigit
						if n > 1 || lo > 0 {
							first = cset{'1', '9'}
						}
					}
					if lo < 0 && digits(lo) >= int64(n) && n > 1 {
						first = csUnion(first, csOne('-'))
					}
					out[0] = first
					return out
				}}
			case "hex2":
				if f.N.W == 8 {
					return &tblock{[]int{2}, func(int) []cset { return repeatSet(csHex, 2) }, true}
				}
			case "hexlist":
				lo, hi := st.rangeLin(seqLen(f.Segs))
				return &tblock{lens: sampleLens(lo, hi), expand: func(n int) []cset {
					var out []cset
					for i := 0; i < n; i++ {
						if i > 0 {
							out = append(out, csOne(' '))
						}
						out = append(out, csHex, csHex)
					}
					return out
				}}
			case "repeat":
				lo, hi := st.rangeLin(st.resolve(f.N).L)
				var one []cset
				ok := true
				for _, y := range f.Segs {
					if l, is := y.(*SegLit); is {
						for _, r := range l.S {
							one = append(one, csOne(r))
						}
					} else {
						ok = false
					}
				}
				if ok {
					return &tblock{lens: sampleLens(lo, hi), rigid: lo == hi, expand: func(n int) []cset {
						var out []cset
						for i := 0; i < n; i++ {
							out = append(out, one...)
						}
						return out
					}}
				}
			case "pad", "padr":
				if len(f.Segs) == 1 {
					b := in.textBlock(st, f.Segs[0])
					w, _ := f.N.constVal()
					return &tblock{lens: b.lens, expand: func(n int) []cset {
						e := b.expand(n)
						p := repeatSet(csOne(' '), max(0, int(w)-len(e)))
						if f.Kind == "pad" {
							return append(p, e...)
						}
						return append(append([]cset{}, e...), p...)
					}}
				}
			}
		}
		c := in.segClass(st, g)
		lo, hi := st.rangeLin(x.N)
		first := c
		if x.R.First != nil && st.proveEQ(x.Off) {
			first = x.R.First
		}
		lens := sampleLens(lo, hi)
		if hi > lo+24 && len(csInter(c, csOne('M'))) > 0 { // free text: long enough for any word of a pattern
			lens = append(lens, int(lo)+24)
		}
		return &tblock{lens: lens, rigid: lo == hi, expand: func(n int) []cset {
			out := repeatSet(c, n)
			if n > 0 {
				out[0] = first
			}
			return out
		}}
	}
	lo, hi := st.rangeLin(g.slen())
	return &tblock{lens: sampleLens(lo, hi), expand: func(n int) []cset { return repeatSet(csAny, n) }}
}

// ---------------------------------------------------------------- matching

const (
	mFail = iota
	mMatch
	mMaybe
)

type matcher struct {
	prog *syntax.Prog
	in   []cset
	set  []cset // per instruction
	dead map[[2]int]bool
	cap  []int
	max  int
}

func (m *matcher) run(pc, pos int) int {
	for {
		if m.max--; m.max < 0 {
			return mMaybe
		}
		k := [2]int{pc, pos}
		if m.dead[k] {
			return mFail
		}
		i := &m.prog.Inst[pc]
		switch i.Op {
		case syntax.InstFail:
			return mFail
		case syntax.InstMatch:
			m.cap[1] = pos
			return mMatch
		case syntax.InstNop:
			pc = int(i.Out)
		case syntax.InstCapture:
			if int(i.Arg) < len(m.cap) {
				old := m.cap[i.Arg]
				m.cap[i.Arg] = pos
				r := m.run(int(i.Out), pos)
				if r == mFail {
					m.cap[i.Arg] = old
				}
				return r
			}
			pc = int(i.Out)
		case syntax.InstEmptyWidth:
			r := m.empty(syntax.EmptyOp(i.Arg), pos)
			if r == mFail {
				return mFail
			}
			if r == mMaybe {
				if m.run(int(i.Out), pos) == mFail {
					return mFail
				}
				return mMaybe
			}
			pc = int(i.Out)
		case syntax.InstAlt, syntax.InstAltMatch:
			if r := m.run(int(i.Out), pos); r != mFail {
				return r
			}
			r := m.run(int(i.Arg), pos)
			if r == mFail {
				m.dead[k] = true
			}
			return r
		default:
			if pos >= len(m.in) {
				return mFail
			}
			if m.set[pc] == nil {
				m.set[pc] = instSet(i)
			}
			c := m.in[pos]
			if len(csInter(c, m.set[pc])) == 0 {
				return mFail
			}
			if csSub(c, m.set[pc]) {
				pc, pos = int(i.Out), pos+1
				continue
			}
			if m.run(int(i.Out), pos+1) == mFail {
				m.dead[k] = true
				return mFail
			}
			return mMaybe
		}
	}
}

var csWord = cset{'0', '9', 'A', 'Z', '_', '_', 'a', 'z'}

func (m *matcher) empty(op syntax.EmptyOp, pos int) int {
	res := mMatch
	and := func(r int) {
		if r == mFail || res == mFail {
			res = mFail
		} else if r == mMaybe {
			res = mMaybe
		}
	}
	if op&syntax.EmptyBeginText != 0 && pos != 0 {
		return mFail
	}
	if op&syntax.EmptyEndText != 0 && pos != len(m.in) {
		return mFail
	}
	is := func(p int, c cset) int {
		if p < 0 || p >= len(m.in) {
			return mFail
		}
		if len(csInter(m.in[p], c)) == 0 {
			return mFail
		}
		if csSub(m.in[p], c) {
			return mMatch
		}
		return mMaybe
	}
	if op&syntax.EmptyBeginLine != 0 && pos != 0 {
		and(is(pos-1, csOne('\n')))
	}
	if op&syntax.EmptyEndLine != 0 && pos != len(m.in) {
		and(is(pos, csOne('\n')))
	}
	if op&(syntax.EmptyWordBoundary|syntax.EmptyNoWordBoundary) != 0 {
		a, b := is(pos-1, csWord), is(pos, csWord)
		r := mMaybe
		if a != mMaybe && b != mMaybe {
			r = mFail
			if (a != b) == (op&syntax.EmptyWordBoundary != 0) {
				r = mMatch
			}
		}
		and(r)
	}
	return res
}

var progs = map[string]*syntax.Prog{}

func progOf(re string) *syntax.Prog {
	if p, ok := progs[re]; ok {
		return p
	}
	var p *syntax.Prog
	if t, err := syntax.Parse(re, syntax.Perl); err == nil {
		p, _ = syntax.Compile(t.Simplify())
	}
	progs[re] = p
	return p
}

// matchAt: leftmost-first match of a string of character classes
func matchAt(re string, s []cset, ncap int) ([]int, int) {
	p := progOf(re)
	if p == nil {
		return nil, mMaybe
	}
	m := &matcher{prog: p, in: s, set: make([]cset, len(p.Inst)), dead: map[[2]int]bool{}, max: 400000}
	for start := 0; start <= len(s); start++ {
		m.cap = make([]int, ncap)
		for i := range m.cap {
			m.cap[i] = -1
		}
		m.cap[0] = start
		switch m.run(p.Start, start) {
		case mMatch:
			return m.cap, mMatch
		case mMaybe:
			return nil, mMaybe
		}
	}
	return nil, mFail
}

// mergeLits joins constant bytes into literals
func mergeLits(segs []Seg) []Seg {
	var out []Seg
	for _, g := range segs {
		var s string
		switch x := g.(type) {
		case *SegLit:
			s = x.S
		case *SegElem:
			if n, ok := x.V.(*Num); ok {
				if c, ok := n.constVal(); ok && c >= 0 && c < 256 {
					s = string([]byte{byte(c)})
				}
			}
		}
		if s == "" {
			out = append(out, g)
			continue
		}
		if k := len(out); k > 0 {
			if l, ok := out[k-1].(*SegLit); ok {
				out[k-1] = &SegLit{l.S + s}
				continue
			}
		}
		out = append(out, &SegLit{s})
	}
	return out
}

// place of a character: a segment and an offset in it
type place struct{ seg, off int }

// matchStructured: sub-matches of a structured string, nil if it does not match; ok=false if it cannot be decided.
// Segments of variable length are tried with their shortest lengths (and the longest if it is near); the match must fall on the same segment boundaries in all of them.
func (in *Interp) matchStructured(st *State, re *regexp.Regexp, segs []Seg) ([]*StrV, bool) {
	segs = mergeLits(segs)
	places, ok := in.matchPlaces(st, re, segs)
	if !ok || places == nil {
		return nil, ok
	}
	var out []*StrV
	for i := 0; i+1 < len(places); i += 2 {
		if places[i].seg < 0 {
			out = append(out, &StrV{})
			continue
		}
		out = append(out, &StrV{in.normSegs(st, cutSegs(segs, places[i], places[i+1]))})
	}
	return out, true
}

func cutSegs(segs []Seg, a, b place) []Seg {
	var out []Seg
	for i := a.seg; i <= b.seg && i < len(segs); i++ {
		g := segs[i]
		lo, hi := 0, -1
		if i == a.seg {
			lo = a.off
		}
		if i == b.seg {
			hi = b.off
		}
		if l, ok := g.(*SegLit); ok {
			r := []rune(l.S)
			if hi < 0 {
				hi = len(r)
			}
			if lo < hi {
				out = append(out, &SegLit{string(r[lo:hi])})
			}
			continue
		}
		if hi == 0 {
			continue
		}
		if lo == 0 && hi < 0 {
			out = append(out, g)
			continue
		}
		// inside a block of fixed length
		sp, ok := g.(*SegSpan)
		if !ok {
			continue
		}
		n := sp.N
		if hi >= 0 {
			n = linConst(int64(hi))
		}
		out = append(out, &SegSpan{sp.R, linAddK(sp.Off, 1, linConst(int64(lo))), linAddK(n, 1, linConst(int64(-lo)))})
	}
	return out
}

func (in *Interp) matchPlaces(st *State, re *regexp.Regexp, segs []Seg) ([]place, bool) {
	segs = mergeLits(segs)
	var blocks []*tblock
	total := 1
	for _, g := range segs {
		b := in.textBlock(st, g)
		if len(b.lens) == 0 {
			return nil, false
		}
		blocks = append(blocks, b)
		total *= len(b.lens)
	}
	if total > 700 { // the shortest and the next
		total = 1
		for _, b := range blocks {
			if len(b.lens) > 2 {
				c := *b
				c.lens = []int{b.lens[0], b.lens[len(b.lens)-1]}
				*b = c
			}
			total *= len(b.lens)
		}
	}
	if total > 5000 {
		return nil, false
	}
	idx := make([]int, len(blocks))
	for i, b := range blocks { // start with the longest
		idx[i] = len(b.lens) - 1
	}
	var ref []place
	got := -1
	ncap := 2 * (re.NumSubexp() + 1)
	for {
		var s []cset
		start := make([]int, len(blocks)+1)
		for i, b := range blocks {
			start[i] = len(s)
			s = append(s, b.expand(b.lens[idx[i]])...)
		}
		start[len(blocks)] = len(s)
		caps, r := matchAt(re.String(), s, ncap)
		if verbose && r != mMatch {
			fmt.Println("MATCH", r, re, segsString(segs))
		}
		if r == mMaybe || got >= 0 && r != got {
			return nil, false
		}
		if r == mMatch {
			if got < 0 {
				for _, p := range caps {
					q := place{-1, 0}
					if p >= 0 {
						for i := range start {
							if i == len(blocks) || p < start[i+1] {
								q = place{i, p - start[i]}
								break
							}
						}
						if q.seg < len(blocks) && q.off > 0 && !blocks[q.seg].rigid {
							return nil, false
						}
					}
					ref = append(ref, q)
				}
			} else {
				for i, q := range ref {
					switch {
					case q.seg < 0:
						if caps[i] >= 0 {
							return nil, false
						}
					case caps[i] != start[q.seg]+q.off:
						return nil, false
					}
				}
			}
		}
		got = r
		k := 0
		for k < len(idx) {
			if idx[k] > 0 {
				idx[k]--
				break
			}
			idx[k] = len(blocks[k].lens) - 1
			k++
		}
		if k == len(idx) {
			break
		}
	}
	return ref, true
}

var _ = fmt.Sprint

// runesClass: the characters of a list of runes
func (in *Interp) runesClass(st *State, segs []Seg) cset {
	var out cset
	for _, g := range segs {
		switch x := g.(type) {
		case *SegElem:
			n, ok := x.V.(*Num)
			if !ok {
				return csAny
			}
			n = st.resolve(n)
			if c, ok := n.constVal(); ok {
				out = csUnion(out, csOne(rune(c)))
				continue
			}
			if a := singleAtom(n); a != nil && a.Op == "elem" && a.Root != nil {
				if src, ok := runeSrc[a.Root.ID]; ok {
					out = csUnion(out, in.segClass(st, src))
					continue
				}
			}
			return csAny
		case *SegSpan:
			src, ok := runeSrc[x.R.ID]
			if !ok {
				return csAny
			}
			out = csUnion(out, in.segClass(st, src))
		default:
			return csAny
		}
	}
	return out
}
