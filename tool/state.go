package main

import (
	"sort"
	"strconv"
	"strings"
)

type iv struct{ lo, hi int64 }
type kb struct{ mask, val uint64 }

type State struct {
	iv    map[int]iv
	kb    map[int]kb
	facts []*Lin
	neq   map[string]*Lin
	preds map[string]bool
	streq map[int]string // SeqAtom -> literal value
	base  map[int]Val
	heap  map[int]Val
	sym   map[string]Val
	dead  bool
	trace []string
	nx    *int
	notes map[string]bool
	ghost map[string]Val
	sub   map[int]*Lin // loop counters known to equal a linear form
}

var nextObj = 1

func newState() *State {
	return &State{iv: map[int]iv{}, kb: map[int]kb{}, neq: map[string]*Lin{}, preds: map[string]bool{}, streq: map[int]string{},
		base: map[int]Val{}, heap: map[int]Val{}, sym: map[string]Val{}, notes: map[string]bool{}, ghost: map[string]Val{}}
}

func cpMap[K comparable, V any](m map[K]V) map[K]V {
	r := make(map[K]V, len(m)+4)
	for k, v := range m {
		r[k] = v
	}
	return r
}

func (st *State) clone() *State {
	return &State{iv: cpMap(st.iv), kb: cpMap(st.kb), facts: st.facts[:len(st.facts):len(st.facts)], neq: cpMap(st.neq),
		preds: cpMap(st.preds), streq: cpMap(st.streq), base: st.base, heap: cpMap(st.heap), sym: cpMap(st.sym), dead: st.dead,
		trace: st.trace[:len(st.trace):len(st.trace)], notes: cpMap(st.notes), ghost: cpMap(st.ghost), sub: cpSub(st.sub)}
}

func cpSub(m map[int]*Lin) map[int]*Lin {
	if len(m) == 0 {
		return nil
	}
	return cpMap(m)
}

func (st *State) alloc(v Val) int {
	id := nextObj
	nextObj++
	st.heap[id] = v
	return id
}

func (st *State) get(id int) Val {
	if v, ok := st.heap[id]; ok {
		return v
	}
	return st.base[id]
}

func (st *State) set(id int, v Val) { st.heap[id] = v }

func (st *State) bit(b Bit) Bit {
	if b.A == nil {
		return b
	}
	if b.A.Op == "bits" {
		c := b.A.Bits[b.I]
		if c.A == b.A {
			return c
		}
		return st.bit(c)
	}
	if d, ok := st.sub[b.A.ID]; ok && d.C == 0 && len(d.T) == 1 && d.T[0].K == 1 {
		if e := d.T[0].A; b.I < len(e.Bits) {
			return st.bit(e.Bits[b.I])
		} else if !e.Signed && len(e.Bits) > 0 {
			return Bit{nil, 0}
		}
	}
	if k, ok := st.kb[b.A.ID]; ok && k.mask>>uint(b.I)&1 == 1 {
		return Bit{nil, int(k.val >> uint(b.I) & 1)}
	}
	if r, ok := st.iv[b.A.ID]; ok {
		if r.lo == r.hi {
			return Bit{nil, int(uint64(r.lo) >> uint(b.I) & 1)}
		}
		if r.lo >= 0 && b.I < 62 && r.hi < int64(1)<<uint(b.I) {
			return Bit{nil, 0}
		}
	}
	return b
}

func (st *State) rangeAtom(a *Atom) (int64, int64) {
	lo, hi := a.Lo, a.Hi
	if r, ok := st.iv[a.ID]; ok {
		if r.lo > lo {
			lo = r.lo
		}
		if r.hi < hi {
			hi = r.hi
		}
	}
	if a.Op == "lin" {
		l, h := st.rangeLin(a.Args[0].L)
		if l > lo {
			lo = l
		}
		if h < hi {
			hi = h
		}
		return lo, hi
	}
	if a.Float {
		return lo, hi
	}
	if a.W <= 62 {
		if a.Op == "bits" {
			if a.Signed {
				top := st.bit(a.Bits[a.W-1])
				if top.A != nil {
					return lo, hi
				}
			}
			var l, h int64
			for i, b := range a.Bits {
				c := st.bit(b)
				if a.Signed && i == a.W-1 {
					if c.I == 1 {
						l -= int64(1) << uint(i)
						h -= int64(1) << uint(i)
					}
					continue
				}
				if c.A != nil {
					h += int64(1) << uint(i)
				} else if c.I == 1 {
					h += int64(1) << uint(i)
					l += int64(1) << uint(i)
				}
			}
			// a single contiguous slice of one atom from bit 0: use the atom's own range
			if b0 := a.Bits[0]; b0.A != nil && b0.I == 0 && b0.A.Op != "bits" && !b0.A.Signed {
				if r, ok := st.iv[b0.A.ID]; ok && r.hi < h && r.hi < int64(1)<<uint(a.W) {
					whole := true
					for i, b := range a.Bits {
						if b.A != b0.A || b.I != i {
							whole = false
						}
					}
					if whole {
						h = r.hi
						if r.lo > l {
							l = r.lo
						}
					}
				}
			}
			if l > lo {
				lo = l
			}
			if h < hi {
				hi = h
			}
		} else if k, ok := st.kb[a.ID]; ok && !a.Signed {
			l := int64(k.val)
			full := uint64(1)<<uint(a.W) - 1
			h := int64(k.val | (full &^ k.mask))
			if l > lo {
				lo = l
			}
			if h < hi {
				hi = h
			}
		}
	}
	return lo, hi
}

func (st *State) rangeLin0(l *Lin) (int64, int64) {
	lo, hi := l.C, l.C
	for _, t := range l.T {
		a, b := st.rangeAtom(t.A)
		if t.K > 0 {
			lo = satAdd(lo, satMul(t.K, a))
			hi = satAdd(hi, satMul(t.K, b))
		} else {
			lo = satAdd(lo, satMul(t.K, b))
			hi = satAdd(hi, satMul(t.K, a))
		}
	}
	return lo, hi
}

// rangeLin: interval of the form, improved with the recorded linear facts
func (st *State) rangeLin(l *Lin) (int64, int64) {
	lo, hi := st.rangeLin0(l)
	if len(l.T) == 0 || len(st.facts) == 0 {
		return lo, hi
	}
	for _, f := range st.facts {
		if !shares(l, f) {
			continue
		}
		// l >= l - f ; l <= l + f
		if a, _ := st.rangeLin0(linSub(l, f)); a > lo {
			lo = a
		}
		if _, b := st.rangeLin0(linAdd(l, f)); b < hi {
			hi = b
		}
	}
	return lo, hi
}

func shares(a, b *Lin) bool {
	for _, t := range a.T {
		for _, u := range b.T {
			if t.A == u.A {
				return true
			}
		}
	}
	return false
}

// proveGE: l >= 0 ?
func (st *State) proveGE(l *Lin) bool {
	if len(st.sub) > 0 {
		l = st.resolveLin(l)
	}
	if st.proveGEd(l, 2) {
		return true
	}
	if m := undiv(st, l); m != nil {
		return st.proveGE(st.resolveLin(m))
	}
	return false
}

// define records that a loop counter equals a linear form, given that l == 0
func (st *State) define(l *Lin) {
	var best *Term
	for i := range l.T {
		t := &l.T[i]
		if (t.K == 1 || t.K == -1) && t.A.Op == "" && strings.HasPrefix(t.A.Name, "iter#") && (best == nil || t.A.ID > best.A.ID) {
			best = t
		}
	}
	if best == nil || st.sub[best.A.ID] != nil {
		return
	}
	d := linAddK(l, -1, &Lin{T: []Term{*best}})
	d = linScale(d, -best.K)
	lo, hi := st.rangeAtom(best.A)
	if st.sub == nil {
		st.sub = map[int]*Lin{}
	}
	st.sub[best.A.ID] = d
	if lo > negInf {
		st.assumeGE(linAddK(d, 1, linConst(-lo)))
	}
	if hi < posInf {
		st.assumeGE(linAddK(linScale(d, -1), 1, linConst(hi)))
	}
	for _, f := range st.facts {
		for _, t := range f.T {
			if t.A == best.A {
				st.assumeGE(f)
				break
			}
		}
	}
}

func (st *State) proveGEd(l *Lin, depth int) bool {
	if lo, _ := st.rangeLin0(l); lo >= 0 {
		return true
	}
	if depth == 0 {
		return false
	}
	for _, f := range st.facts {
		if !shares(l, f) {
			continue
		}
		d := linSub(l, f)
		if len(d.T) > len(l.T)+len(f.T)-1 {
			continue
		}
		if st.proveGEd(d, depth-1) {
			return true
		}
	}
	return false
}

func (st *State) proveEQ(l *Lin) bool {
	if l.isConst() {
		return l.C == 0
	}
	l = st.resolveLin(l)
	if l.isConst() {
		return l.C == 0
	}
	return st.proveGE(l) && st.proveGE(linScale(l, -1))
}

// undiv replaces c·div(x,c) with x-mod(x,c)
func undiv(st *State, l *Lin) *Lin {
	for _, t := range l.T {
		if t.A.Op != "div" {
			continue
		}
		c, ok := t.A.Args[1].constVal()
		if !ok || c <= 0 || t.K%c != 0 {
			continue
		}
		r := linAddK(l, -t.K, &Lin{T: []Term{{t.A, 1}}})
		x := t.A.Args[0]
		m := app(st, "mod", t.A.W, t.A.Signed, x, t.A.Args[1])
		return linAddK(r, t.K/c, linSub(x.L, m.L))
	}
	return nil
}

func neqKey(l *Lin) string {
	if len(l.T) > 0 && l.T[0].K < 0 {
		l = linScale(l, -1)
	}
	return l.key()
}

func (st *State) proveNE(l *Lin) bool {
	l0 := l
	l = st.resolveLin(l)
	if l.isConst() {
		return l.C != 0
	}
	lo, hi := st.rangeLin(l)
	if lo > 0 || hi < 0 {
		return true
	}
	if st.neq[neqKey(l)] != nil || st.neq[neqKey(l0)] != nil {
		return true
	}
	// divisibility
	g := int64(0)
	for _, t := range l.T {
		a, b := g, t.K
		if b < 0 {
			b = -b
		}
		for b != 0 {
			a, b = b, a%b
		}
		g = a
	}
	if g > 1 && l.C%g != 0 {
		return true
	}
	// two bit patterns that differ in a known bit
	if len(l.T) == 2 && l.C == 0 && l.T[0].K == -l.T[1].K {
		x, y := l.T[0].A, l.T[1].A
		for i := 0; i < len(x.Bits) && i < len(y.Bits); i++ {
			p, q := st.bit(x.Bits[i]), st.bit(y.Bits[i])
			if p.A == nil && q.A == nil && p.I != q.I {
				return true
			}
		}
	}
	// bits contradicting a constant
	if len(l.T) == 1 && (l.T[0].K == 1 || l.T[0].K == -1) {
		c := -l.C
		if l.T[0].K == -1 {
			c = l.C
		}
		a := l.T[0].A
		if a.W <= 62 {
			for i, b := range a.Bits {
				x := st.bit(b)
				if x.A == nil && x.I != int(uint64(c)>>uint(i)&1) {
					return true
				}
			}
		}
	}
	return false
}

func (st *State) resolveLin(l *Lin) *Lin {
	if l.isConst() {
		return l
	}
	r := linConst(l.C)
	ch := false
	for _, t := range l.T {
		if d, ok := st.sub[t.A.ID]; ok {
			r = linAddK(r, t.K, st.resolveLin(d))
			ch = true
			continue
		}
		lo, hi := st.rangeAtom(t.A)
		if lo == hi {
			r = linAddK(r, t.K, linConst(lo))
			ch = true
			continue
		}
		if t.A.Op == "bits" {
			dirty := false
			v := make([]Bit, len(t.A.Bits))
			for i, b := range t.A.Bits {
				v[i] = st.bit(b)
				if v[i] != b {
					dirty = true
				}
			}
			if dirty {
				n := numFromBits(st, v, len(v), t.A.Signed)
				if !(len(n.L.T) == 1 && n.L.T[0].A == t.A) {
					r = linAddK(r, t.K, n.L)
					ch = true
					continue
				}
			}
		}
		if t.A.Op == "lin" {
			r = linAddK(r, t.K, st.resolveLin(t.A.Args[0].L))
			ch = true
			continue
		}
		r = linAddK(r, t.K, linAtom(t.A))
	}
	if !ch {
		return l
	}
	return r
}

func (st *State) resolve(n *Num) *Num {
	l := st.resolveLin(n.L)
	if l == n.L {
		return n
	}
	return &Num{n.W, n.Signed, l}
}

func (st *State) setRange(a *Atom, lo, hi int64) {
	r, ok := st.iv[a.ID]
	if !ok {
		r = iv{a.Lo, a.Hi}
	}
	if lo > r.lo {
		r.lo = lo
	}
	if hi < r.hi {
		r.hi = hi
	}
	was := ok && st.iv[a.ID].lo == st.iv[a.ID].hi
	st.iv[a.ID] = r
	if r.lo > r.hi {
		st.dead = true
	}
	if r.lo == r.hi && !was && !st.dead {
		for _, e := range varIdx[a.ID] {
			if l := st.resolveLin(e.Args[0].L); l.isConst() {
				elemNum(st, e.Root, intLin(l), e.W, e.Signed)
			}
		}
	}
	if r.lo == r.hi && !was && len(st.facts) > 0 { // what the facts now say about the other atoms
		for _, f := range st.facts[:len(st.facts):len(st.facts)] {
			for _, t := range f.T {
				if t.A == a && !st.dead {
					st.assumeGE(f)
					break
				}
			}
		}
	}
}

func (st *State) setBit(b Bit, v int) {
	b = st.bit(b)
	if b.A == nil {
		if b.I != v {
			st.dead = true
		}
		return
	}
	k := st.kb[b.A.ID]
	k.mask |= 1 << uint(b.I)
	if v == 1 {
		k.val |= 1 << uint(b.I)
	}
	st.kb[b.A.ID] = k
	if b.A.W <= 62 && !b.A.Signed {
		full := uint64(1)<<uint(b.A.W) - 1
		if lo, hi := st.rangeAtom(b.A); lo > hi {
			st.dead = true
		}
		if k.mask&full == full {
			st.setRange(b.A, int64(k.val), int64(k.val))
		}
	}
}

func (st *State) addFact(l *Lin) {
	k := l.key()
	for _, f := range st.facts {
		if f.key() == k {
			return
		}
	}
	st.facts = append(st.facts, l)
}

func (st *State) assumeGE(l *Lin) {
	l = st.resolveLin(l)
	if l.isConst() {
		if l.C < 0 {
			st.dead = true
		}
		return
	}
	lo, hi := st.rangeLin(l)
	if hi < 0 {
		st.dead = true
		return
	}
	if lo >= 0 {
		return
	}
	// tighten each atom when the others are bounded
	for _, t := range l.T {
		rest := linAddK(l, -1, &Lin{T: []Term{t}})
		_, h := st.rangeLin0(rest)
		if h >= posInf {
			continue
		}
		// t.K*a >= -rest  => t.K*a >= -h
		if t.K > 0 {
			st.setRange(t.A, ceilDiv(-h, t.K), posInf)
		} else {
			st.setRange(t.A, negInf, floorDiv(h, -t.K))
		}
		st.fixEdges(t.A)
	}
	if len(l.T) > 1 {
		st.addFact(l)
		if !st.dead && hasIter(l) && st.proveGE(linScale(l, -1)) {
			st.define(l)
		}
	}
}

func hasIter(l *Lin) bool {
	for _, t := range l.T {
		if t.A.Op == "" && (t.K == 1 || t.K == -1) && strings.HasPrefix(t.A.Name, "iter#") {
			return true
		}
	}
	return false
}

func ceilDiv(a, b int64) int64 {
	q := a / b
	if a%b != 0 && (a > 0) == (b > 0) {
		q++
	}
	return q
}
func floorDiv(a, b int64) int64 {
	q := a / b
	if a%b != 0 && (a > 0) != (b > 0) {
		q--
	}
	return q
}

// fixEdges removes excluded endpoint values
func (st *State) fixEdges(a *Atom) {
	for i := 0; i < 300; i++ {
		lo, hi := st.rangeAtom(a)
		if lo > hi {
			st.dead = true
			return
		}
		if lo > negInf && st.neq[neqKey(linAddK(linAtom(a), 1, linConst(-lo)))] != nil {
			st.setRange(a, lo+1, posInf)
			continue
		}
		if hi < posInf && st.neq[neqKey(linAddK(linAtom(a), 1, linConst(-hi)))] != nil {
			st.setRange(a, negInf, hi-1)
			continue
		}
		return
	}
}

func (st *State) assumeEQ(l *Lin) {
	if st.proveNE(l) {
		st.dead = true
		return
	}
	l = st.resolveLin(l)
	if l.isConst() {
		if l.C != 0 {
			st.dead = true
		}
		return
	}
	lo, hi := st.rangeLin(l)
	if lo > 0 || hi < 0 {
		st.dead = true
		return
	}
	if len(l.T) == 1 {
		t := l.T[0]
		if l.C%t.K != 0 {
			st.dead = true
			return
		}
		c := -l.C / t.K
		st.setRange(t.A, c, c)
		if t.A.Op == "bits" && t.A.W <= 62 {
			for i, b := range t.A.Bits {
				st.setBit(b, int(uint64(c)>>uint(i)&1))
			}
		}
		if t.A.Op == "lin" {
			st.assumeEQ(linAddK(t.A.Args[0].L, 1, linConst(-c)))
		}
		if t.A.Op == "sel" {
			// which indices give the value
			n, at := 0, 0
			for i, v := range t.A.Table {
				if v == c {
					if !st.proveNE(linAddK(t.A.Args[0].L, 1, linConst(int64(-i)))) {
						n++
						at = i
					}
				}
			}
			if n == 0 {
				st.dead = true
			} else if n == 1 {
				st.assumeEQ(linAddK(t.A.Args[0].L, 1, linConst(int64(-at))))
			}
		}
		return
	}
	if len(l.T) == 2 && l.C == 0 && l.T[0].K == -l.T[1].K {
		// a == b : intersect ranges and bits
		a, b := l.T[0].A, l.T[1].A
		alo, ahi := st.rangeAtom(a)
		blo, bhi := st.rangeAtom(b)
		st.setRange(a, blo, bhi)
		st.setRange(b, alo, ahi)
	}
	st.assumeGE(l)
	st.assumeGE(linScale(l, -1))
}

func (st *State) assumeNE(l *Lin) {
	l = st.resolveLin(l)
	if l.isConst() {
		if l.C == 0 {
			st.dead = true
		}
		return
	}
	st.neq[neqKey(l)] = l
	lo, hi := st.rangeLin(l)
	if lo == 0 {
		st.assumeGE(linAddK(l, 1, linConst(-1)))
	} else if hi == 0 {
		st.assumeGE(linAddK(linScale(l, -1), 1, linConst(-1)))
	}
	if len(l.T) == 1 && (l.T[0].K == 1 || l.T[0].K == -1) {
		a := l.T[0].A
		c := -l.C * l.T[0].K
		st.fixEdges(a)
		if a.Op == "sel" {
			for i, v := range a.Table {
				if v == c && !st.dead {
					st.assumeNE(linAddK(a.Args[0].L, 1, linConst(int64(-i))))
				}
			}
		}
		st.lastBits(a)
		if a.Op == "bits" && a.W <= 62 {
			un := -1
			cnt := 0
			for i, b := range a.Bits {
				x := st.bit(b)
				if x.A != nil {
					un = i
					cnt++
				} else if x.I != int(uint64(c)>>uint(i)&1) {
					return
				}
			}
			if cnt == 1 {
				st.setBit(a.Bits[un], 1-int(uint64(c)>>uint(un)&1))
			} else if cnt == 0 {
				st.dead = true
			}
		}
	}
}

// lastBits: when only one combination of a few unknown bits is left, they are known
func (st *State) lastBits(a *Atom) {
	if a.W > 62 || len(a.Bits) != a.W || a.Op != "bits" && a.Op != "" {
		return
	}
	var un []Bit
	var base int64
	for i, b := range a.Bits {
		x := st.bit(b)
		if x.A != nil {
			if len(un) == 3 {
				return
			}
			un = append(un, b)
			_ = i
		} else if x.I == 1 {
			base |= int64(1) << uint(i)
		}
	}
	if len(un) == 0 {
		return
	}
	left, cnt := 0, 0
	for m := 0; m < 1<<uint(len(un)); m++ {
		v := base
		j := 0
		for i, b := range a.Bits {
			if j < len(un) && b == un[j] {
				if m>>uint(j)&1 == 1 {
					v |= int64(1) << uint(i)
				}
				j++
			}
		}
		if a.Signed && v>>uint(a.W-1)&1 == 1 {
			v -= int64(1) << uint(a.W)
		}
		if st.neq[neqKey(linAddK(linAtom(a), 1, linConst(-v)))] == nil {
			left = m
			cnt++
		}
	}
	if cnt == 0 {
		st.dead = true
	} else if cnt == 1 {
		for j, b := range un {
			st.setBit(b, left>>uint(j)&1)
		}
	}
}

// evalCond: 1 true, 0 false, -1 unknown
func (st *State) evalCond(c *Cond) int {
	r := -1
	switch c.Kind {
	case 'c':
		if c.C {
			return 1
		}
		return 0
	case 'g':
		if st.proveGE(c.L) {
			r = 1
		} else if st.proveGE(linAddK(linScale(c.L, -1), 1, linConst(-1))) {
			r = 0
		}
	case 'e':
		if st.proveNE(c.L) {
			r = 0
		} else if st.proveEQ(c.L) {
			r = 1
		}
	case 'p':
		if v, ok := st.preds[c.P]; ok {
			if v {
				r = 1
			} else {
				r = 0
			}
		}
	case 's':
		if l, ok := st.streq[c.R.ID]; ok {
			if l == c.P {
				r = 1
			} else {
				r = 0
			}
		} else if st.preds[streqKey(c)] {
			r = 0
		} else if st.proveNE(linAddK(c.R.Len.L, 1, linConst(int64(-len(c.P))))) {
			r = 0
		}
	case 'a':
		r = 1
		for _, d := range c.Sub {
			switch st.evalCond(d) {
			case 0:
				r = 0
			case -1:
				if r == 1 {
					r = -1
				}
			}
			if r == 0 {
				break
			}
		}
	}
	if r >= 0 && c.Neg {
		r = 1 - r
	}
	return r
}

func (st *State) assume(c *Cond, truth bool) {
	if c.Neg {
		truth = !truth
	}
	switch c.Kind {
	case 'c':
		v := c.C
		if v != truth {
			st.dead = true
		}
	case 'g':
		if truth {
			st.assumeGE(c.L)
		} else {
			st.assumeGE(linAddK(linScale(c.L, -1), 1, linConst(-1)))
		}
	case 'e':
		if truth {
			st.assumeEQ(c.L)
		} else {
			st.assumeNE(c.L)
		}
	case 'p':
		if v, ok := st.preds[c.P]; ok && v != truth {
			st.dead = true
			return
		}
		st.preds[c.P] = truth
	case 's':
		l, ok := st.streq[c.R.ID]
		if ok {
			if (l == c.P) != truth {
				st.dead = true
			}
			return
		}
		if !truth {
			st.preds[streqKey(c)] = true
			if c.P == "" {
				st.assumeGE(linAddK(c.R.Len.L, 1, linConst(-1)))
			}
			return
		}
		if st.preds[streqKey(c)] {
			st.dead = true
			return
		}
		st.assumeEQ(linAddK(c.R.Len.L, 1, linConst(int64(-len(c.P)))))
		st.streq[c.R.ID] = c.P
		if w, s, ok := numType(c.R.Elem); ok && len(c.P) <= 64 {
			for i := 0; i < len(c.P); i++ {
				e := elemNum(st, c.R, intConst(int64(i)), w, s)
				st.assumeEQ(linAddK(e.L, 1, linConst(int64(-int(c.P[i])))))
			}
		}
	case 'a':
		if truth {
			for _, d := range c.Sub {
				st.assume(d, true)
			}
			return
		}
		var un *Cond
		n := 0
		for _, d := range c.Sub {
			switch st.evalCond(d) {
			case 0:
				return
			case -1:
				un = d
				n++
			}
		}
		if n == 0 {
			st.dead = true
		} else if n == 1 {
			st.assume(un, false)
		}
	}
}

func cmpCond(op string, x, y *Num) *Cond {
	switch op {
	case "==":
		return &Cond{Kind: 'e', L: linSub(x.L, y.L)}
	case "!=":
		return &Cond{Kind: 'e', L: linSub(x.L, y.L), Neg: true}
	case "<":
		return &Cond{Kind: 'g', L: linAddK(linSub(y.L, x.L), 1, linConst(-1))}
	case "<=":
		return &Cond{Kind: 'g', L: linSub(y.L, x.L)}
	case ">":
		return &Cond{Kind: 'g', L: linAddK(linSub(x.L, y.L), 1, linConst(-1))}
	case ">=":
		return &Cond{Kind: 'g', L: linSub(x.L, y.L)}
	}
	return &Cond{Kind: 'p', P: "?cmp"}
}

func (st *State) pathString() []string {
	out := []string{}
	ks := []string{}
	for k, v := range st.preds {
		if v {
			ks = append(ks, k)
		} else {
			ks = append(ks, "!"+k)
		}
	}
	sort.Strings(ks)
	out = append(out, ks...)
	ids := []int{}
	for k := range st.iv {
		ids = append(ids, k)
	}
	sort.Ints(ids)
	for _, k := range ids {
		a := atomList[k]
		r := st.iv[k]
		if r.lo == a.Lo && r.hi == a.Hi {
			continue
		}
		out = append(out, a.String()+" in ["+strconv.FormatInt(r.lo, 10)+","+strconv.FormatInt(r.hi, 10)+"]")
	}
	for _, f := range st.facts {
		out = append(out, f.String()+" >= 0")
	}
	return out
}

func streqKey(c *Cond) string { return "strne:" + strconv.Itoa(c.R.ID) + ":" + c.P }
