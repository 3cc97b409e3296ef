package main

// Numeric domain: integers are linear forms over interned atoms; an atom is either a primitive
// unknown, a vector of bits of other atoms (bit provenance), or an uninterpreted application.

import (
	"fmt"
	"math"
	"sort"
	"strconv"
	"strings"
)

type Bit struct {
	A *Atom // nil: constant
	I int   // bit index, or constant value 0/1 when A is nil
}

type Atom struct {
	ID     int
	W      int
	Signed bool
	Name   string
	Op     string // "" primitive, "bits", or an operator
	Args   []*Num
	Root   *SeqAtom // for element atoms
	Bits   []Bit    // bit vector (len W)
	Lo, Hi int64
	Float  bool
	Table  []int64 // Op "sel": constant table indexed by Args[0]
}

const (
	negInf = math.MinInt64 / 4
	posInf = math.MaxInt64 / 4
)

type Term struct {
	A *Atom
	K int64
}

type Lin struct {
	C int64
	T []Term // sorted by atom ID, non zero
	k string
}

type Num struct {
	W      int
	Signed bool
	L      *Lin
}

var (
	atomList  []*Atom
	atomIndex = map[string]*Atom{}
)

func typeRange(w int, signed bool) (int64, int64) {
	if w >= 64 {
		if signed {
			return negInf, posInf
		}
		return 0, posInf
	}
	if signed {
		return -(int64(1) << (w - 1)), int64(1)<<(w-1) - 1
	}
	return 0, int64(1)<<w - 1
}

func newAtom(name string, w int, signed bool) *Atom {
	a := &Atom{ID: len(atomList), W: w, Signed: signed, Name: name}
	a.Lo, a.Hi = typeRange(w, signed)
	a.Bits = make([]Bit, w)
	for i := range a.Bits {
		a.Bits[i] = Bit{a, i}
	}
	atomList = append(atomList, a)
	return a
}

func internAtom(key string, w int, signed bool, mk func(a *Atom)) *Atom {
	if a, ok := atomIndex[key]; ok {
		return a
	}
	a := newAtom(key, w, signed)
	if mk != nil {
		mk(a)
	}
	atomIndex[key] = a
	return a
}

func (a *Atom) String() string {
	if a.Op == "bits" {
		return bitsString(a.Bits)
	}
	if a.Op != "" {
		s := []string{}
		if a.Root != nil {
			s = append(s, a.Root.Name)
		}
		for _, x := range a.Args {
			s = append(s, x.String())
		}
		return a.Op + "(" + strings.Join(s, ",") + ")"
	}
	return a.Name
}

func bitsString(v []Bit) string {
	// compress runs, msb first
	out := []string{}
	i := len(v) - 1
	for i >= 0 {
		b := v[i]
		if b.A == nil {
			j := i
			s := ""
			for j >= 0 && v[j].A == nil {
				s += strconv.Itoa(v[j].I)
				j--
			}
			if strings.Trim(s, "0") == "" && i == len(v)-1 && j >= 0 {
				// leading zeros
			} else {
				out = append(out, "0b"+s)
			}
			i = j
			continue
		}
		j := i
		for j > 0 && v[j-1].A == b.A && v[j-1].I == v[j].I-1 {
			j--
		}
		if j == i {
			out = append(out, fmt.Sprintf("%v[%d]", b.A, b.I))
		} else {
			out = append(out, fmt.Sprintf("%v[%d:%d]", b.A, b.I, v[j].I))
		}
		i = j - 1
	}
	return "{" + strings.Join(out, " ") + "}"
}

func linConst(c int64) *Lin { return &Lin{C: c} }

func linAtom(a *Atom) *Lin { return &Lin{T: []Term{{a, 1}}} }

func (l *Lin) key() string {
	if l.k == "" {
		var b strings.Builder
		b.WriteString(strconv.FormatInt(l.C, 10))
		for _, t := range l.T {
			b.WriteByte('+')
			b.WriteString(strconv.FormatInt(t.K, 10))
			b.WriteByte('*')
			b.WriteString(strconv.Itoa(t.A.ID))
		}
		l.k = b.String()
	}
	return l.k
}

func (l *Lin) isConst() bool { return len(l.T) == 0 }

func (l *Lin) String() string {
	s := ""
	for _, t := range l.T {
		if t.K == 1 {
			s += "+" + t.A.String()
		} else if t.K == -1 {
			s += "-" + t.A.String()
		} else {
			s += fmt.Sprintf("%+d*%v", t.K, t.A)
		}
	}
	if l.C != 0 || s == "" {
		s += fmt.Sprintf("%+d", l.C)
	}
	return strings.TrimPrefix(s, "+")
}

func linAddK(a *Lin, k int64, b *Lin) *Lin {
	r := &Lin{C: satAdd(a.C, satMul(k, b.C))}
	i, j := 0, 0
	for i < len(a.T) || j < len(b.T) {
		switch {
		case j >= len(b.T) || (i < len(a.T) && a.T[i].A.ID < b.T[j].A.ID):
			r.T = append(r.T, a.T[i])
			i++
		case i >= len(a.T) || b.T[j].A.ID < a.T[i].A.ID:
			if x := satMul(k, b.T[j].K); x != 0 {
				r.T = append(r.T, Term{b.T[j].A, x})
			}
			j++
		default:
			if x := a.T[i].K + satMul(k, b.T[j].K); x != 0 {
				r.T = append(r.T, Term{a.T[i].A, x})
			}
			i++
			j++
		}
	}
	return r
}

func linAdd(a, b *Lin) *Lin { return linAddK(a, 1, b) }
func linSub(a, b *Lin) *Lin { return linAddK(a, -1, b) }
func linScale(a *Lin, k int64) *Lin {
	return linAddK(linConst(0), k, a)
}

func satAdd(a, b int64) int64 {
	if a <= negInf || b <= negInf {
		return negInf
	}
	if a >= posInf || b >= posInf {
		return posInf
	}
	r := a + b
	if r > posInf {
		return posInf
	}
	if r < negInf {
		return negInf
	}
	return r
}

func satMul(a, b int64) int64 {
	if a == 0 || b == 0 {
		return 0
	}
	if a == 1 {
		return b
	}
	if b == 1 {
		return a
	}
	f := float64(a) * float64(b)
	if f >= float64(posInf) {
		return posInf
	}
	if f <= float64(negInf) {
		return negInf
	}
	return a * b
}

func numConst(c int64, w int, signed bool) *Num { return &Num{w, signed, linConst(c)} }
func numAtom(a *Atom, w int, signed bool) *Num  { return &Num{w, signed, linAtom(a)} }
func intConst(c int64) *Num                     { return numConst(c, 64, true) }
func intLin(l *Lin) *Num                        { return &Num{64, true, l} }

func (n *Num) String() string { return n.L.String() }

func (n *Num) constVal() (int64, bool) {
	if n.L.isConst() {
		return n.L.C, true
	}
	return 0, false
}

// wrapConst reduces c to the range of the type
func wrapConst(c int64, w int, signed bool) int64 {
	if w >= 64 {
		return c
	}
	m := int64(1) << w
	c &= m - 1
	if signed && c >= m/2 {
		c -= m
	}
	return c
}

// atomFor gives an atom whose value is the linear form
func atomFor(st *State, n *Num) *Atom {
	l := n.L
	if len(l.T) == 1 && l.T[0].K == 1 && l.C == 0 {
		return l.T[0].A
	}
	lo, hi := st.rangeLin(l)
	_ = lo
	_ = hi
	return internAtom("lin:"+strconv.Itoa(n.W)+":"+strconv.FormatBool(n.Signed)+":"+l.key(), n.W, n.Signed, func(a *Atom) {
		a.Op = "lin"
		a.Args = []*Num{n}
	})
}

func constBits(c int64, w int) []Bit {
	v := make([]Bit, w)
	for i := range v {
		v[i] = Bit{nil, int(uint64(c) >> uint(i) & 1)}
	}
	return v
}

// bitsOf gives the two's complement bit vector (width n.W) of a number, with bits known in the state resolved
func bitsOf(st *State, n *Num) []Bit {
	n = st.resolve(n)
	if c, ok := n.constVal(); ok {
		return constBits(c, n.W)
	}
	a := atomFor(st, n)
	v := make([]Bit, n.W)
	for i := range v {
		switch {
		case i < len(a.Bits):
			v[i] = st.bit(a.Bits[i])
		case a.Signed:
			v[i] = st.bit(a.Bits[len(a.Bits)-1])
		default:
			v[i] = Bit{nil, 0}
		}
	}
	// interval derived leading zeros
	lo, hi := st.rangeLin(n.L)
	if lo >= 0 {
		for i := range v {
			if i < 62 && hi < int64(1)<<uint(i) {
				v[i] = Bit{nil, 0}
			}
		}
	}
	return v
}

func bitsKey(v []Bit) string {
	var b strings.Builder
	for _, x := range v {
		if x.A == nil {
			b.WriteByte('0' + byte(x.I))
		} else {
			b.WriteByte('(')
			b.WriteString(strconv.Itoa(x.A.ID))
			b.WriteByte('.')
			b.WriteString(strconv.Itoa(x.I))
			b.WriteByte(')')
		}
	}
	return b.String()
}

// numFromBits builds the canonical number for a bit vector of the given type
func numFromBits(st *State, v []Bit, w int, signed bool) *Num {
	all := true
	c := int64(0)
	for i, b := range v {
		if b.A != nil {
			all = false
			break
		}
		if b.I == 1 && i < 63 {
			c |= int64(1) << uint(i)
		}
	}
	if all {
		return numConst(wrapConst(c, w, signed), w, signed)
	}
	top := v[len(v)-1]
	if signed && !(top.A == nil && top.I == 0) {
		// signed with unknown or set sign bit
		// identical to an existing signed atom of the same width?
		if a := top.A; a != nil && a.Signed && a.W == len(v) && sameBits(a.Bits, v) {
			return numAtom(a, w, signed)
		}
		// sign extension of a narrower signed atom
		if a := top.A; a != nil && a.Signed && a.W < len(v) {
			ok := true
			for i := range v {
				j := i
				if j >= a.W {
					j = a.W - 1
				}
				if v[i] != a.Bits[j] {
					ok = false
				}
			}
			if ok {
				return numAtom(a, w, signed)
			}
		}
		vv := append([]Bit{}, v...)
		a := internAtom("sbits:"+bitsKey(vv), len(vv), true, func(a *Atom) {
			a.Op = "bits"
			a.Bits = vv
		})
		return numAtom(a, w, signed)
	}
	n := len(v)
	for n > 0 && v[n-1].A == nil && v[n-1].I == 0 {
		n--
	}
	v = v[:n]
	// whole primitive atom?
	if a := v[0].A; a != nil && a.Op != "bits" && !a.Signed {
		ok := n <= a.W
		for i := 0; ok && i < n; i++ {
			if v[i] != (Bit{a, i}) && !(v[i].A == nil && st.bit(Bit{a, i}) == v[i]) {
				ok = false
			}
		}
		// the remaining bits of the atom must be known zero
		for i := n; ok && i < a.W; i++ {
			b := st.bit(Bit{a, i})
			if !(b.A == nil && b.I == 0) {
				_, hi := st.rangeAtom(a)
				if !(i < 62 && hi < int64(1)<<uint(i)) {
					ok = false
				}
			}
		}
		if ok {
			return numAtom(a, w, signed)
		}
	}
	// signed atom with known non-negative value
	if a := v[0].A; a != nil && a.Op != "bits" && a.Signed {
		lo, hi := st.rangeAtom(a)
		if lo >= 0 && n < 62 && hi < int64(1)<<uint(n) {
			ok := true
			for i := 0; i < n; i++ {
				if v[i] != (Bit{a, i}) {
					ok = false
				}
			}
			if ok {
				return numAtom(a, w, signed)
			}
		}
	}
	vv := append([]Bit{}, v...)
	a := internAtom("bits:"+bitsKey(vv), len(vv), false, func(a *Atom) {
		a.Op = "bits"
		a.Bits = vv
	})
	return numAtom(a, w, signed)
}

func sameBits(a, b []Bit) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func numKey(n *Num) string { return n.L.key() }

func app(st *State, op string, w int, signed bool, args ...*Num) *Num {
	k := "app:" + op + ":" + strconv.Itoa(w) + ":" + strconv.FormatBool(signed)
	for _, a := range args {
		k += "|" + strconv.Itoa(a.W) + ":" + numKey(a)
	}
	a := internAtom(k, w, signed, func(a *Atom) {
		a.Op = op
		a.Args = args
	})
	return numAtom(a, w, signed)
}

// fit: lin is the mathematical value; reduce to the type if it can overflow
func fit(st *State, l *Lin, w int, signed bool) *Num {
	if l.isConst() {
		return numConst(wrapConst(l.C, w, signed), w, signed)
	}
	lo, hi := st.rangeLin(l)
	tlo, thi := typeRange(w, signed)
	if w >= 64 && !signed && lo < 0 {
		// unsigned 64 subtraction that may wrap
		return app(st, "wrap", w, signed, intLin(l))
	}
	if lo >= tlo && hi <= thi {
		return &Num{w, signed, l}
	}
	if w >= 64 {
		return &Num{w, signed, l}
	}
	return app(st, "wrap", w, signed, intLin(l))
}

func isZeroBit(b Bit) bool { return b.A == nil && b.I == 0 }
func isOneBit(b Bit) bool  { return b.A == nil && b.I == 1 }

func numBin(st *State, op string, x, y *Num) *Num {
	w, s := x.W, x.Signed
	x, y = st.resolve(x), st.resolve(y)
	cx, okx := x.constVal()
	cy, oky := y.constVal()
	switch op {
	case "+":
		if !(okx && oky) && (!okx && !oky && w <= 32 || w <= 16 && !s) {
			// disjoint bits: addition is bitwise or
			bx, by := bitsOf(st, x), bitsOf(st, y)
			dis := true
			for i := range bx {
				if !isZeroBit(bx[i]) && !isZeroBit(by[i]) {
					dis = false
					break
				}
			}
			if dis {
				return numBin(st, "|", x, y)
			}
		}
		return fit(st, linAdd(x.L, y.L), w, s)
	case "-":
		return fit(st, linSub(x.L, y.L), w, s)
	case "*":
		if w <= 32 && !s && oky && !okx && cy > 1 && cy&(cy-1) == 0 {
			sh := int64(0)
			for int64(1)<<uint(sh) < cy {
				sh++
			}
			return numShift(st, "<<", x, sh)
		}
		if oky {
			return fit(st, linScale(x.L, cy), w, s)
		}
		if okx {
			return fit(st, linScale(y.L, cx), w, s)
		}
		return app(st, "mul", w, s, x, y)
	case "/", "%":
		if okx && oky && cy != 0 {
			if op == "/" {
				return numConst(wrapConst(cx/cy, w, s), w, s)
			}
			return numConst(cx%cy, w, s)
		}
		if oky && cy > 0 {
			lo, hi := st.rangeLin(x.L)
			if op == "%" && lo >= 0 && hi < cy {
				return x
			}
			if cy&(cy-1) == 0 && lo >= 0 {
				sh := 0
				for int64(1)<<uint(sh) < cy {
					sh++
				}
				if op == "/" {
					return numShift(st, ">>", x, int64(sh))
				}
				return numBin(st, "&", x, numConst(cy-1, w, s))
			}
			r := app(st, map[string]string{"/": "div", "%": "mod"}[op], w, s, x, y)
			a := r.L.T[0].A
			if lo >= 0 {
				if op == "/" {
					if hi < posInf {
						st.setRange(a, lo/cy, hi/cy)
					} else {
						st.setRange(a, lo/cy, posInf)
					}
				} else {
					h := cy - 1
					if hi < h {
						h = hi
					}
					st.setRange(a, 0, h)
				}
			} else if op == "%" {
				st.setRange(a, -(cy - 1), cy-1)
			} else if hi < posInf && lo > negInf {
				st.setRange(a, lo/cy, hi/cy)
			}
			return r
		}
		r := app(st, map[string]string{"/": "div", "%": "mod"}[op], w, s, x, y)
		ylo, yhi := st.rangeLin(y.L)
		xlo, xhi := st.rangeLin(x.L)
		if xlo >= 0 && ylo > 0 {
			if op == "%" {
				st.setRange(r.L.T[0].A, 0, yhi-1)
			} else {
				st.setRange(r.L.T[0].A, 0, xhi)
			}
		}
		return r
	case "&", "|", "^", "&^":
		bx, by := bitsOf(st, x), bitsOf(st, y)
		if op == "&^" {
			if !oky {
				return app(st, "andnot", w, s, x, y)
			}
			by = constBits(^cy, w)
			op = "&"
		}
		v := make([]Bit, w)
		var ap *Atom
		need := func(i int) Bit {
			if ap == nil {
				a, b := x, y
				if numKey(b) < numKey(a) {
					a, b = b, a
				}
				ap = app(st, "bit"+op, w, false, a, b).L.T[0].A
			}
			return Bit{ap, i}
		}
		for i := range v {
			p, q := bx[i], by[i]
			switch op {
			case "&":
				switch {
				case isZeroBit(p) || isZeroBit(q):
					v[i] = Bit{nil, 0}
				case isOneBit(p):
					v[i] = q
				case isOneBit(q):
					v[i] = p
				case p == q:
					v[i] = p
				default:
					v[i] = need(i)
				}
			case "|":
				switch {
				case isOneBit(p) || isOneBit(q):
					v[i] = Bit{nil, 1}
				case isZeroBit(p):
					v[i] = q
				case isZeroBit(q):
					v[i] = p
				case p == q:
					v[i] = p
				default:
					v[i] = need(i)
				}
			case "^":
				switch {
				case p.A == nil && q.A == nil:
					v[i] = Bit{nil, p.I ^ q.I}
				case isZeroBit(p):
					v[i] = q
				case isZeroBit(q):
					v[i] = p
				case p == q:
					v[i] = Bit{nil, 0}
				default:
					v[i] = need(i)
				}
			}
		}
		return numFromBits(st, v, w, s)
	case "<<", ">>":
		if oky {
			return numShift(st, op, x, cy)
		}
		lo, hi := st.rangeLin(y.L)
		if okx && lo >= 0 && hi < 63 && cx > 0 {
			r := app(st, "shift"+op, w, s, x, y)
			if op == "<<" && w >= 64 && hi < 40 && cx < 1<<20 {
				st.setRange(r.L.T[0].A, cx<<uint(lo), cx<<uint(hi))
			}
			return r
		}
		return app(st, "shift"+op, w, s, x, y)
	}
	return app(st, op, w, s, x, y)
}

func numShift(st *State, op string, x *Num, k int64) *Num {
	w, s := x.W, x.Signed
	if c, ok := x.constVal(); ok {
		if op == "<<" {
			if k >= 64 {
				return numConst(0, w, s)
			}
			return numConst(wrapConst(c<<uint(k), w, s), w, s)
		}
		if k >= 63 {
			if c < 0 {
				return numConst(-1, w, s)
			}
			return numConst(0, w, s)
		}
		return numConst(c>>uint(k), w, s)
	}
	if op == "<<" && w == 64 {
		// keep linear when small
		lo, hi := st.rangeLin(x.L)
		if a := singleAtom(x); a == nil && lo >= 0 && hi < 1<<40 && k < 20 {
			return fit(st, linScale(x.L, int64(1)<<uint(k)), w, s)
		}
	}
	b := bitsOf(st, x)
	v := make([]Bit, w)
	for i := range v {
		var j int
		if op == "<<" {
			j = i - int(k)
		} else {
			j = i + int(k)
		}
		switch {
		case j >= 0 && j < w:
			v[i] = b[j]
		case op == ">>" && s:
			v[i] = b[w-1]
		default:
			v[i] = Bit{nil, 0}
		}
	}
	return numFromBits(st, v, w, s)
}

func singleAtom(x *Num) *Atom {
	if len(x.L.T) == 1 && x.L.T[0].K == 1 && x.L.C == 0 {
		return x.L.T[0].A
	}
	return nil
}

func numConv(st *State, x *Num, w int, signed bool) *Num {
	x = st.resolve(x)
	if c, ok := x.constVal(); ok {
		return numConst(wrapConst(c, w, signed), w, signed)
	}
	lo, hi := st.rangeLin(x.L)
	tlo, thi := typeRange(w, signed)
	if lo >= tlo && hi <= thi {
		return &Num{w, signed, x.L}
	}
	if w >= 64 && x.W >= 64 {
		return &Num{w, signed, x.L}
	}
	b := bitsOf(st, x)
	v := make([]Bit, w)
	for i := range v {
		switch {
		case i < len(b):
			v[i] = b[i]
		case x.Signed:
			v[i] = b[len(b)-1]
		default:
			v[i] = Bit{nil, 0}
		}
	}
	return numFromBits(st, v, w, signed)
}

// substitution of an atom by a number
type subst struct {
	a    *Atom
	to   *Lin
	memo map[int]*Lin
}

func (s *subst) lin(st *State, l *Lin) *Lin {
	r := linConst(l.C)
	ch := false
	for _, t := range l.T {
		x := s.atom(st, t.A)
		if !(len(x.T) == 1 && x.T[0].A == t.A && x.T[0].K == 1 && x.C == 0) {
			ch = true
		}
		r = linAddK(r, t.K, x)
	}
	if !ch {
		return l
	}
	return r
}

func (s *subst) num(st *State, n *Num) *Num {
	l := s.lin(st, n.L)
	if l == n.L {
		return n
	}
	return &Num{n.W, n.Signed, l}
}

func (s *subst) atom(st *State, a *Atom) *Lin {
	if a == s.a {
		return s.to
	}
	if a.Op == "" {
		return linAtom(a)
	}
	if r, ok := s.memo[a.ID]; ok {
		return r
	}
	res := linAtom(a)
	switch a.Op {
	case "bits":
		ch := false
		v := make([]Bit, len(a.Bits))
		for i, b := range a.Bits {
			v[i] = b
			if b.A != nil {
				l := s.atom(st, b.A)
				if !(len(l.T) == 1 && l.T[0].A == b.A && l.C == 0 && l.T[0].K == 1) {
					ch = true
					nb := bitsOf(st, &Num{b.A.W, b.A.Signed, l})
					v[i] = nb[b.I]
				}
			}
		}
		if ch {
			res = numFromBits(st, v, len(v), a.Signed).L
		}
	case "lin":
		res = s.lin(st, a.Args[0].L)
	default:
		ch := false
		args := make([]*Num, len(a.Args))
		for i, x := range a.Args {
			args[i] = s.num(st, x)
			if args[i] != x {
				ch = true
			}
		}
		if ch {
			if a.Op == "sel" {
				res = selNum(st, a.Table, args[0], a.W, a.Signed).L
			} else if a.Root != nil {
				res = elemNum(st, a.Root, args[0], a.W, a.Signed).L
			} else {
				res = app(st, a.Op, a.W, a.Signed, args...).L
			}
		}
	}
	s.memo[a.ID] = res
	return res
}

func sortTerms(t []Term) { sort.Slice(t, func(i, j int) bool { return t[i].A.ID < t[j].A.ID }) }

// selNum: an entry of a constant table selected by an index
func selNum(st *State, table []int64, i *Num, w int, signed bool) *Num {
	i = st.resolve(i)
	if c, ok := i.constVal(); ok && c >= 0 && c < int64(len(table)) {
		return numConst(table[c], w, signed)
	}
	a := internAtom(fmt.Sprintf("sel:%v:%d@%s", table, w, i.L.key()), w, signed, func(a *Atom) {
		a.Name = "table[" + i.String() + "]"
		a.Op, a.Table, a.Args = "sel", table, []*Num{i}
		a.Lo, a.Hi = table[0], table[0]
		for _, c := range table {
			if c < a.Lo {
				a.Lo = c
			}
			if c > a.Hi {
				a.Hi = c
			}
		}
	})
	return numAtom(a, w, signed)
}
