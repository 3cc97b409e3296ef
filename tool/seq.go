package main

import (
	"fmt"
	"go/types"
	"strconv"
)

var byteT = types.Typ[types.Byte]
var stringT = types.Typ[types.String]
var uintT = types.Typ[types.Uint]

func seqLen(s []Seg) *Lin {
	l := linConst(0)
	for _, g := range s {
		l = linAdd(l, g.slen())
	}
	return l
}

// varIdx: the elements whose index depends on an atom
var varIdx = map[int][]*Atom{}

func elemNum(st *State, r *SeqAtom, idx *Num, w int, signed bool) *Num {
	idx = st.resolve(idx)
	a := internAtom("el:"+strconv.Itoa(r.ID)+":"+idx.L.key(), w, signed, func(a *Atom) {
		a.Op = "elem"
		a.Args = []*Num{{64, true, idx.L}}
		a.Root = r
		if !idx.L.isConst() {
			r.VarEl = append(r.VarEl, a)
			for _, t := range idx.L.T {
				varIdx[t.A.ID] = append(varIdx[t.A.ID], a)
			}
		}
	})
	if idx.L.isConst() && len(r.VarEl) > 0 {
		// what is known of an element whose index has since become this constant
		for _, b := range r.VarEl {
			if b.W != w || b == a {
				continue
			}
			if l := st.resolveLin(b.Args[0].L); !l.isConst() || l.C != idx.L.C {
				continue
			}
			lo, hi := st.rangeAtom(b)
			if l0, h0 := st.rangeAtom(a); lo > l0 || hi < h0 {
				st.setRange(a, lo, hi)
			}
			for _, f := range st.neq {
				if len(f.T) == 1 && f.T[0].A == b {
					st.assumeNE(&Lin{T: []Term{{a, f.T[0].K}}, C: f.C})
				}
			}
		}
	}
	return numAtom(a, w, signed)
}

func numType(t types.Type) (w int, signed bool, ok bool) {
	b, isb := t.Underlying().(*types.Basic)
	if !isb {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true, true
	case types.Int8:
		return 8, true, true
	case types.Int16:
		return 16, true, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	case types.Uint8:
		return 8, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint32:
		return 32, false, true
	}
	return 0, false, false
}

func (in *Interp) spanElem(st *State, r *SeqAtom, idx *Lin) Val {
	if w, s, ok := numType(r.Elem); ok {
		return elemNum(st, r, intLin(idx), w, s)
	}
	idx = st.resolveLin(idx)
	key := "el:" + strconv.Itoa(r.ID) + ":" + idx.key()
	if b, ok := r.Elem.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
		sr := internSeq(key, byteT, func(x *SeqAtom) { x.Name = fmt.Sprintf("%s[%v]", r.Name, idx) })
		if r.Inv != nil && r.Inv.minLen > 0 {
			st.setRange(sr.Len.L.T[0].A, r.Inv.minLen, posInf)
		}
		return wholeStr(sr)
	}
	if v, ok := st.sym[key]; ok {
		return v
	}
	if r.JSON != nil && r.JSON.Kind == "anylist" {
		if v, ok := in.anyVal(st, fmt.Sprintf("%s[%v]", r.JSON.Path, idx), r.Elem); ok {
			st.sym[key] = v
			return v
		}
	}
	v := in.symVal(st, r.Elem, fmt.Sprintf("%s[%v]", r.Name, idx))
	if r.Inv != nil {
		switch x := v.(type) {
		case *SliceV:
			if r.Inv.minLen > 0 {
				st.assumeGE(linAddK(x.Len, 1, linConst(-r.Inv.minLen)))
				x.NilPred = ""
			}
		case *PtrV:
			if r.Inv.nonNil {
				x.NilPred = ""
			}
		case *OpaqueV:
			if r.Inv.nonNil {
				x.NonNil = true
			}
		case *MapV:
			if r.Inv.nonNil {
				x.NilPred = ""
			}
		}
	}
	st.sym[key] = v
	return v
}

func wholeStr(r *SeqAtom) *StrV {
	return &StrV{[]Seg{&SegSpan{r, linConst(0), r.Len.L}}}
}

func (in *Interp) compElem(st *State, c *SegComp, rel *Lin) Val {
	s := &subst{a: c.K, to: linAdd(c.Off, rel), memo: map[int]*Lin{}}
	return in.substVal(st, s, c.El[0])
}

func (in *Interp) substSegs(st *State, s *subst, segs []Seg) []Seg {
	out := []Seg{}
	for _, g := range segs {
		switch x := g.(type) {
		case *SegElem:
			out = append(out, &SegElem{in.substVal(st, s, x.V)})
		case *SegSpan:
			out = append(out, &SegSpan{in.substRoot(st, s, x.R), s.lin(st, x.Off), s.lin(st, x.N)})
		case *SegComp:
			el := []Val{}
			for _, e := range x.El {
				el = append(el, in.substVal(st, s, e))
			}
			y := *x
			y.El, y.Off, y.N = el, s.lin(st, x.Off), s.lin(st, x.N)
			out = append(out, &y)
		default:
			out = append(out, g)
		}
	}
	return out
}

func (in *Interp) substRoot(st *State, s *subst, r *SeqAtom) *SeqAtom {
	f := r.Fmt
	if f == nil {
		return r
	}
	ch := false
	n := f.N
	if n != nil {
		n = s.num(st, f.N)
		ch = n != f.N
	}
	if f.Kind == "dec" || f.Kind == "hex2" {
		if ch {
			return fmtRoot(st, f.Kind, n)
		}
		return r
	}
	segs := f.Segs
	if f.Kind != "sel" && len(segs) > 0 {
		segs = in.substSegs(st, s, f.Segs)
		ch = ch || segsKey(segs) != segsKey(f.Segs)
	}
	args := f.Args
	if len(args) > 0 {
		args = nil
		for _, a := range f.Args {
			b := in.substVal(st, s, a)
			ch = ch || vkey(a) != vkey(b)
			args = append(args, b)
		}
	}
	if !ch {
		return r
	}
	k := "subst:" + f.Kind + ":" + segsKey(segs)
	if n != nil {
		k += "|" + n.L.key()
	}
	for _, a := range args {
		k += "|" + vkey(a)
	}
	return internSeq(k, r.Elem, func(x *SeqAtom) {
		x.Fmt = &FmtDesc{Kind: f.Kind, N: n, Segs: segs, Args: args}
		x.Name = r.Name + "'"
	})
}

func (in *Interp) substVal(st *State, s *subst, v Val) Val {
	switch x := v.(type) {
	case *Num:
		return s.num(st, x)
	case *StrV:
		return &StrV{in.substSegs(st, s, x.S)}
	case *ArrayV:
		return &ArrayV{in.substSegs(st, s, x.S), x.Elem}
	case *SeqV:
		return &SeqV{in.substSegs(st, s, x.S)}
	case *StructV:
		f := make([]Val, len(x.F))
		for i := range f {
			f[i] = in.substVal(st, s, x.F[i])
		}
		return &StructV{x.T, f}
	case *IfaceV:
		return &IfaceV{x.T, in.substVal(st, s, x.V)}
	}
	return v
}

// seqIndexAt returns the element at position idx (0 based) of the sequence
func (in *Interp) seqIndexAt(st *State, segs []Seg, idx *Lin) (Val, bool) {
	pos := linConst(0)
	idx = st.resolveLin(idx)
	for _, g := range segs {
		n := g.slen()
		end := linAdd(pos, n)
		rel := linSub(idx, pos)
		if st.proveGE(linAddK(linSub(end, idx), 1, linConst(-1))) && st.proveGE(rel) {
			// within this segment
			switch x := g.(type) {
			case *SegElem:
				return x.V, true
			case *SegLit:
				r := st.resolveLin(rel)
				if r.isConst() {
					return numConst(int64(x.S[r.C]), 8, false), true
				}
				return nil, false
			case *SegSpan:
				if x.R.Fmt != nil {
					return nil, false
				}
				return in.spanElem(st, x.R, linAdd(x.Off, rel)), true
			case *SegComp:
				if len(x.El) == 1 && !x.Str {
					return in.compElem(st, x, rel), true
				}
				return nil, false
			}
		}
		if !st.proveGE(linSub(idx, end)) {
			return nil, false
		}
		pos = end
	}
	return nil, false
}

// splitAt splits the sequence at position p
func (in *Interp) splitAt(st *State, segs []Seg, p *Lin) ([]Seg, []Seg, bool) {
	pos := linConst(0)
	p = st.resolveLin(p)
	for i, g := range segs {
		d := st.resolveLin(linSub(p, pos))
		if st.proveEQ(d) {
			return segs[:i:i], segs[i:], true
		}
		n := g.slen()
		end := linAdd(pos, n)
		if st.proveGE(linSub(p, end)) {
			pos = end
			continue
		}
		if st.proveGE(d) && st.proveGE(linSub(end, p)) {
			var a, b Seg
			switch x := g.(type) {
			case *SegLit:
				if !d.isConst() {
					return nil, nil, false
				}
				a, b = &SegLit{x.S[:d.C]}, &SegLit{x.S[d.C:]}
			case *SegSpan:
				if x.R.Fmt != nil {
					return nil, nil, false
				}
				a = &SegSpan{x.R, x.Off, d}
				b = &SegSpan{x.R, st.resolveLin(linAdd(x.Off, d)), st.resolveLin(linSub(n, d))}
			case *SegComp:
				if len(x.El) != 1 || x.Str {
					return nil, nil, false
				}
				c1, c2 := *x, *x
				c1.N = d
				c2.Off = linAdd(x.Off, d)
				c2.N = linSub(x.N, d)
				a, b = &c1, &c2
			default:
				return nil, nil, false
			}
			l := append(append([]Seg{}, segs[:i]...), a)
			r := append([]Seg{b}, segs[i+1:]...)
			return l, r, true
		}
		return nil, nil, false
	}
	if st.proveEQ(linSub(p, pos)) {
		return segs, nil, true
	}
	return nil, nil, false
}

func (in *Interp) seqSub(st *State, segs []Seg, lo, hi *Lin) ([]Seg, bool) {
	a, _, ok := in.splitAt(st, segs, hi)
	if !ok {
		// hi may equal the whole length syntactically unprovable
		if st.proveEQ(linSub(seqLen(segs), hi)) {
			a = segs
		} else {
			return nil, false
		}
	}
	_, b, ok := in.splitAt(st, a, lo)
	if !ok {
		return nil, false
	}
	return b, true
}

// subAny: like seqSub with an opaque fallback
func (in *Interp) subAny(st *State, segs []Seg, lo, hi *Lin, elem types.Type) []Seg {
	if s, ok := in.seqSub(st, segs, lo, hi); ok {
		return s
	}
	r := internSeq("sub:"+segsKey(segs)+"|"+lo.key()+"|"+hi.key(), elem, nil)
	n := linSub(hi, lo)
	st.assumeEQ(linSub(r.Len.L, n))
	return []Seg{&SegSpan{r, linConst(0), n}}
}

// normSegs resolves lengths, drops empty segments, merges neighbours
func (in *Interp) normSegs(st *State, segs []Seg) []Seg {
	out := []Seg{}
	for _, g := range segs {
		switch x := g.(type) {
		case *SegSpan:
			n := st.resolveLin(x.N)
			if n.isConst() && n.C == 0 {
				continue
			}
			if s, ok := st.streq[x.R.ID]; ok && st.proveEQ(x.Off) && st.proveEQ(linSub(x.N, x.R.Len.L)) {
				g = &SegLit{s}
				break
			}
			if n.isConst() && n.C > 0 && n.C <= 64 && x.R.Fmt == nil && x.R.JSON == nil && !x.R.Whole {
				for i := int64(0); i < n.C; i++ {
					out = append(out, &SegElem{in.resolveVal(st, in.spanElem(st, x.R, st.resolveLin(linAddK(x.Off, 1, linConst(i)))))})
				}
				continue
			}
			g = &SegSpan{x.R, st.resolveLin(x.Off), n}
		case *SegElem:
			g = &SegElem{in.resolveVal(st, x.V)}
		case *SegLit:
			if x.S == "" {
				continue
			}
		case *SegComp:
			n := st.resolveLin(x.N)
			if n.isConst() && n.C == 0 {
				continue
			}
			if n.isConst() && n.C > 0 && n.C <= 16 && len(x.El) == 1 && !x.Str {
				for i := int64(0); i < n.C; i++ {
					out = append(out, &SegElem{in.resolveVal(st, in.compElem(st, x, linConst(i)))})
				}
				continue
			}
			// a comprehension that is the identity on a span
			if sp := in.compAsSpan(st, x); sp != nil {
				g = sp
			} else {
				y := *x
				y.N = n
				y.Off = st.resolveLin(x.Off)
				y.El = nil
				for _, e := range x.El {
					y.El = append(y.El, in.resolveVal(st, e))
				}
				g = &y
			}
		}
		if len(out) > 0 {
			if a, ok := out[len(out)-1].(*SegSpan); ok {
				if b, ok := g.(*SegSpan); ok && a.R == b.R && st.proveEQ(linSub(linAdd(a.Off, a.N), b.Off)) {
					out[len(out)-1] = &SegSpan{a.R, a.Off, linAdd(a.N, b.N)}
					continue
				}
			}
			if a, ok := out[len(out)-1].(*SegLit); ok {
				if b, ok := g.(*SegLit); ok {
					out[len(out)-1] = &SegLit{a.S + b.S}
					continue
				}
			}
		}
		out = append(out, g)
	}
	return out
}

func (in *Interp) compAsSpan(st *State, c *SegComp) *SegSpan {
	if len(c.El) != 1 || c.Str {
		return nil
	}
	n, ok := c.El[0].(*Num)
	if !ok {
		return nil
	}
	a := singleAtom(n)
	if a == nil || a.Op != "elem" {
		return nil
	}
	w, _, ok := numType(a.Root.Elem)
	if !ok || w != n.W {
		return nil
	}
	// index = k + d
	d := linSub(a.Args[0].L, linAtom(c.K))
	for _, t := range d.T {
		if t.A == c.K {
			return nil
		}
	}
	return &SegSpan{a.Root, st.resolveLin(linAdd(c.Off, d)), c.N}
}

func (in *Interp) resolveVal(st *State, v Val) Val {
	switch x := v.(type) {
	case *Num:
		return st.resolve(x)
	case *BoolV:
		if r := st.evalCond(x.C); r >= 0 {
			return boolConst(r == 1)
		}
	case *StrV:
		return &StrV{in.normSegs(st, x.S)}
	case *StructV:
		f := make([]Val, len(x.F))
		for i := range f {
			f[i] = in.resolveVal(st, x.F[i])
		}
		return &StructV{x.T, f}
	}
	return v
}

// first element of a sequence, and the rest
func (in *Interp) uncons(st *State, segs []Seg) (Val, []Seg, bool) {
	if len(segs) == 0 {
		return nil, nil, false
	}
	switch x := segs[0].(type) {
	case *SegElem:
		return x.V, segs[1:], true
	case *SegLit:
		rest := segs[1:]
		if len(x.S) > 1 {
			rest = append([]Seg{&SegLit{x.S[1:]}}, rest...)
		}
		return numConst(int64(x.S[0]), 8, false), rest, true
	case *SegSpan:
		if x.R.Fmt != nil || x.R.JSON != nil {
			return nil, nil, false
		}
		if !st.proveGE(linAddK(x.N, 1, linConst(-1))) {
			return nil, nil, false
		}
		v := in.spanElem(st, x.R, x.Off)
		rest := append([]Seg{&SegSpan{x.R, linAddK(x.Off, 1, linConst(1)), linAddK(x.N, 1, linConst(-1))}}, segs[1:]...)
		return v, rest, true
	case *SegComp:
		if len(x.El) != 1 || x.Str || !st.proveGE(linAddK(x.N, 1, linConst(-1))) {
			return nil, nil, false
		}
		v := in.compElem(st, x, linConst(0))
		y := *x
		y.Off = linAddK(x.Off, 1, linConst(1))
		y.N = linAddK(x.N, 1, linConst(-1))
		return v, append([]Seg{&y}, segs[1:]...), true
	}
	return nil, nil, false
}

// seqEqual: provably equal; reason otherwise
func (in *Interp) seqEqual(st *State, a, b []Seg) (bool, string) {
	a, b = in.normSegs(st, a), in.normSegs(st, b)
	for step := 0; step < 4000; step++ {
		a, b = in.trimEmpty(st, a), in.trimEmpty(st, b)
		if len(a) == 0 && len(b) == 0 {
			return true, ""
		}
		if len(a) == 0 || len(b) == 0 {
			return false, fmt.Sprintf("length differs: [%s] against [%s]", segsString(a), segsString(b))
		}
		if segKey(a[0]) == segKey(b[0]) {
			a, b = a[1:], b[1:]
			continue
		}
		if x, ok := a[0].(*SegLit); ok {
			if y, ok := b[0].(*SegLit); ok {
				n := len(x.S)
				if len(y.S) < n {
					n = len(y.S)
				}
				if x.S[:n] != y.S[:n] {
					return false, fmt.Sprintf("%q against %q", x.S, y.S)
				}
				a = append([]Seg{&SegLit{x.S[n:]}}, a[1:]...)
				b = append([]Seg{&SegLit{y.S[n:]}}, b[1:]...)
				continue
			}
		}
		if x, ok := a[0].(*SegSpan); ok {
			if y, ok := b[0].(*SegSpan); ok && x.R == y.R && st.proveEQ(linSub(x.Off, y.Off)) {
				if st.proveEQ(linSub(x.N, y.N)) {
					a, b = a[1:], b[1:]
					continue
				}
				if st.proveGE(linSub(x.N, y.N)) {
					a = append([]Seg{&SegSpan{x.R, linAdd(x.Off, y.N), linSub(x.N, y.N)}}, a[1:]...)
					b = b[1:]
					continue
				}
				if st.proveGE(linSub(y.N, x.N)) {
					b = append([]Seg{&SegSpan{x.R, linAdd(y.Off, x.N), linSub(y.N, x.N)}}, b[1:]...)
					a = a[1:]
					continue
				}
			}
		}
		if x, ok := a[0].(*SegComp); ok {
			if y, ok := b[0].(*SegComp); ok && len(x.El) == 1 && len(y.El) == 1 && st.proveEQ(linSub(x.N, y.N)) {
				k := newAtom("k", 64, true)
				k.Lo, k.Hi = 0, 1<<40
				if eq, why := in.valEqual(st, in.compElem(st, x, linAtom(k)), in.compElem(st, y, linAtom(k))); !eq {
					return false, "elements differ: " + why
				}
				a, b = a[1:], b[1:]
				continue
			}
		}
		va, ra, ok1 := in.uncons(st, a)
		vb, rb, ok2 := in.uncons(st, b)
		if !ok1 || !ok2 {
			return false, fmt.Sprintf("[%s] against [%s]", segsString(a), segsString(b))
		}
		if eq, why := in.valEqual(st, va, vb); !eq {
			return false, why
		}
		a, b = ra, rb
	}
	return false, "too long to compare"
}

func (in *Interp) trimEmpty(st *State, a []Seg) []Seg {
	for len(a) > 0 {
		n := a[0].slen()
		if _, ok := a[0].(*SegElem); ok {
			return a
		}
		if n != nil && st.proveEQ(n) {
			a = a[1:]
			continue
		}
		return a
	}
	return a
}

func (in *Interp) numEqual(st *State, x, y *Num) bool {
	if st.proveEQ(linSub(x.L, y.L)) {
		return true
	}
	w := x.W
	if y.W > w {
		w = y.W
	}
	bx := bitsOf(st, &Num{w, x.Signed, x.L})
	by := bitsOf(st, &Num{w, y.Signed, y.L})
	return sameBits(bx, by)
}

// valEqual: the two values are provably equal (structurally, through the heap)
func (in *Interp) valEqual(st *State, a, b Val) (bool, string) {
	switch x := a.(type) {
	case *Num:
		if y, ok := b.(*Num); ok {
			if in.numEqual(st, x, y) {
				return true, ""
			}
			return false, fmt.Sprintf("%v instead of %v", vstr(st.resolve(x)), vstr(st.resolve(y)))
		}
	case *BoolV:
		if y, ok := b.(*BoolV); ok {
			ex, ey := st.evalCond(x.C), st.evalCond(y.C)
			if ex >= 0 && ex == ey {
				return true, ""
			}
			if ex < 0 && ey < 0 && x.C.String() == y.C.String() {
				return true, ""
			}
			return false, fmt.Sprintf("%v instead of %v", x.C, y.C)
		}
	case *StrV:
		if y, ok := b.(*StrV); ok {
			return in.seqEqual(st, x.S, y.S)
		}
	case *ArrayV:
		if y, ok := b.(*ArrayV); ok {
			return in.seqEqual(st, x.S, y.S)
		}
	case *SliceV:
		if y, ok := b.(*SliceV); ok {
			return in.seqEqual(st, in.sliceSegs(st, x), in.sliceSegs(st, y))
		}
	case *StructV:
		if y, ok := b.(*StructV); ok && len(x.F) == len(y.F) {
			for i := range x.F {
				if eq, why := in.valEqual(st, x.F[i], y.F[i]); !eq {
					n := strconv.Itoa(i)
					if t, ok := x.T.Underlying().(*types.Struct); ok {
						n = t.Field(i).Name()
					}
					return false, n + ": " + why
				}
			}
			return true, ""
		}
	case *IfaceV:
		if y, ok := b.(*IfaceV); ok {
			if !types.Identical(x.T, y.T) {
				return false, fmt.Sprintf("type %v instead of %v", x.T, y.T)
			}
			return in.valEqual(st, x.V, y.V)
		}
	}
	if vkey(a) == vkey(b) {
		return true, ""
	}
	return false, fmt.Sprintf("%s instead of %s", vstr(a), vstr(b))
}

func (in *Interp) sliceSegs(st *State, s *SliceV) []Seg {
	if s.Obj == 0 {
		return nil
	}
	o := st.get(s.Obj)
	var segs []Seg
	switch x := o.(type) {
	case *SeqV:
		segs = x.S
	case *ArrayV:
		segs = x.S
	default:
		// slice over an array stored inside another object
		r := internSeq(fmt.Sprintf("obj%d", s.Obj), s.Elem, nil)
		segs = []Seg{&SegSpan{r, linConst(0), r.Len.L}}
	}
	return in.subAny(st, segs, s.Off, linAdd(s.Off, s.Len), s.Elem)
}

func (in *Interp) newSlice(st *State, segs []Seg, elem types.Type) *SliceV {
	id := st.alloc(&SeqV{segs})
	n := seqLen(segs)
	return &SliceV{Obj: id, Off: linConst(0), Len: n, Cap: n, Elem: elem}
}

func strToElems(segs []Seg) []Seg {
	out := []Seg{}
	for _, g := range segs {
		if l, ok := g.(*SegLit); ok {
			for i := 0; i < len(l.S); i++ {
				out = append(out, &SegElem{numConst(int64(l.S[i]), 8, false)})
			}
		} else {
			out = append(out, g)
		}
	}
	return out
}

func fmtRoot(st *State, kind string, n *Num) *SeqAtom {
	n = st.resolve(n)
	r := internSeq("fmt:"+kind+":"+n.L.key(), byteT, func(r *SeqAtom) {
		r.Fmt = &FmtDesc{Kind: kind, N: n}
		r.Name = kind + "(" + n.String() + ")"
		a := r.Len.L.T[0].A
		a.Lo, a.Hi = 1, 24
		if kind == "hex2" {
			a.Lo = 2
			if n.W == 8 {
				a.Hi = 2
			}
		}
	})
	if kind == "dec" {
		lo, hi := st.rangeLin(n.L)
		min, max := decLens(lo, hi)
		st.setRange(r.Len.L.T[0].A, min, max)
	}
	return r
}

// decLens: the lengths of the decimal forms of the numbers in a range
func decLens(lo, hi int64) (int64, int64) {
	min, max := digits(lo), digits(hi)
	if lo < 0 && hi >= 0 {
		if digits(lo) > max {
			max = digits(lo)
		}
		return 1, max
	}
	if min > max {
		return max, min
	}
	return min, max
}
