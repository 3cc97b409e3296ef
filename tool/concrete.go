package main

// Refutation: two abstract expressions that are not syntactically equal are only reported as different if a
// valuation of the input atoms that satisfies the path condition gives them different values. The valuation
// evaluates the abstract expressions, never the program.

import (
	"fmt"
	"go/types"
	"math/rand"
	"strings"
)

type valuation struct {
	in   *Interp
	st   *State
	rng  *rand.Rand
	num  map[int]int64
	el   map[string]int64
	bad  bool
	why  string
	mode int
}

func (v *valuation) fail(why string) int64 {
	v.bad = true
	if v.why == "" {
		v.why = why
	}
	return 0
}

func (v *valuation) pick(a *Atom) int64 {
	lo, hi := v.st.rangeAtom(a)
	if strings.HasPrefix(a.Name, "len(") && hi > lo+40 {
		hi = lo + 40
	}
	if hi < lo {
		return lo
	}
	if lo < -(1 << 40) {
		lo = -(1 << 40)
	}
	if hi > 1<<40 {
		hi = 1 << 40
	}
	var c int64
	switch v.mode {
	case 0:
		c = lo
	case 1:
		c = hi
	default:
		switch v.rng.Intn(6) {
		case 0:
			c = lo
		case 1:
			c = hi
		default:
			c = lo + v.rng.Int63n(hi-lo+1)
		}
	}
	if k, ok := v.st.kb[a.ID]; ok {
		c = int64((uint64(c) &^ k.mask) | k.val)
		if a.Signed && a.W < 64 {
			c = wrapConst(c, a.W, true)
		}
	}
	return c
}

func (v *valuation) atom(a *Atom) int64 {
	if c, ok := v.num[a.ID]; ok {
		return c
	}
	var c int64
	switch {
	case a.Op == "":
		if strings.Contains(a.Name, "#") && !strings.Contains(a.Name, "iter") {
			return v.fail("imprecise value " + a.Name)
		}
		// the length of a rendered string
		if r := lenRoot[a.ID]; r != nil && r.Fmt != nil {
			s, ok := v.root(r)
			if !ok {
				return v.fail("length of " + r.Name)
			}
			c = int64(len(s))
			break
		}
		c = v.pick(a)
	case a.Op == "bits":
		var u uint64
		for i, b := range a.Bits {
			bit := 0
			if b.A == nil {
				bit = b.I
			} else {
				bit = int(uint64(v.atom(b.A)) >> uint(b.I) & 1)
			}
			u |= uint64(bit) << uint(i)
		}
		c = wrapConst(int64(u), a.W, a.Signed)
	case a.Op == "lin", a.Op == "wrap":
		c = wrapConst(v.lin(a.Args[0].L), a.W, a.Signed)
	case a.Op == "elem":
		i := v.lin(a.Args[0].L)
		if strings.Contains(a.Root.Name, "#") && !strings.Contains(a.Root.Name, "iter") {
			return v.fail("imprecise sequence " + a.Root.Name)
		}
		if a.Root.Fmt != nil {
			s, ok := v.root(a.Root)
			if !ok || i < 0 || i >= int64(len(s)) {
				return v.fail("element of " + a.Root.Name)
			}
			c = int64(s[i])
			break
		}
		k := fmt.Sprintf("%d@%d", a.Root.ID, i)
		if x, ok := v.el[k]; ok {
			c = x
		} else {
			c = v.pick(a)
			v.el[k] = c
		}
	case a.Op == "sel":
		i := v.lin(a.Args[0].L)
		if i < 0 || i >= int64(len(a.Table)) {
			return v.fail("table index")
		}
		c = a.Table[i]
	case len(a.Args) == 2:
		x, y := v.lin(a.Args[0].L), v.lin(a.Args[1].L)
		switch a.Op {
		case "mul":
			c = wrapConst(x*y, a.W, a.Signed)
		case "div", "mod":
			if y == 0 {
				return v.fail("division by zero")
			}
			if a.Op == "div" {
				c = wrapConst(x/y, a.W, a.Signed)
			} else {
				c = x % y
			}
		case "bit|":
			c = wrapConst(x|y, a.W, a.Signed)
		case "bit&":
			c = wrapConst(x&y, a.W, a.Signed)
		case "bit^":
			c = wrapConst(x^y, a.W, a.Signed)
		case "andnot":
			c = wrapConst(x&^y, a.W, a.Signed)
		case "shift<<":
			if y < 0 || y > 63 {
				c = 0
			} else {
				c = wrapConst(x<<uint(y), a.W, a.Signed)
			}
		case "shift>>":
			if y < 0 || y > 63 {
				y = 63
			}
			c = wrapConst(x>>uint(y), a.W, a.Signed)
		default:
			return v.fail("operator " + a.Op)
		}
	default:
		return v.fail("operator " + a.Op)
	}
	v.num[a.ID] = c
	return c
}

func (v *valuation) lin(l *Lin) int64 {
	c := l.C
	for _, t := range l.T {
		c += t.K * v.atom(t.A)
	}
	return c
}

func (v *valuation) numv(n *Num) int64 { return wrapConst(v.lin(n.L), n.W, n.Signed) }

func (v *valuation) root(r *SeqAtom) (string, bool) {
	if l, ok := v.st.streq[r.ID]; ok {
		return l, true
	}
	if r.Fmt == nil {
		return v.span(r, 0, v.lin(r.Len.L))
	}
	f := r.Fmt
	switch f.Kind {
	case "dec":
		return fmt.Sprintf("%d", v.numv(f.N)), !v.bad
	case "hex2":
		c := v.numv(f.N)
		return fmt.Sprintf("%02X", c), !v.bad
	case "hexlist":
		s, ok := v.str(f.Segs)
		if !ok {
			return "", false
		}
		return fmt.Sprintf("% X", s), true
	case "sel":
		e, ok := v.in.seqIndexAt(v.st, f.Segs, linConst(v.lin(f.N.L)))
		if !ok {
			return "", false
		}
		if s, ok := e.(*StrV); ok {
			return v.str(s.S)
		}
		return "", false
	case "pad", "padr":
		s, ok := v.str(f.Segs)
		if !ok {
			return "", false
		}
		if f.Kind == "pad" {
			return fmt.Sprintf("%*s", int(v.numv(f.N)), s), true
		}
		return fmt.Sprintf("%-*s", int(v.numv(f.N)), s), true
	case "repeat":
		s, ok := v.str(f.Segs)
		n := v.numv(f.N)
		if !ok || n < 0 || n > 10000 {
			return "", false
		}
		return strings.Repeat(s, int(n)), true
	}
	v.fail("string " + r.Name)
	return "", false
}

func (v *valuation) span(r *SeqAtom, off, n int64) (string, bool) {
	if n < 0 || n > 1<<20 {
		v.fail("span length")
		return "", false
	}
	if n > 300 {
		n = 300 // payloads are compared on a prefix
	}
	if r.Fmt != nil || v.st.streq[r.ID] != "" {
		s, ok := v.root(r)
		if !ok || off < 0 || off+n > int64(len(s)) {
			return "", false
		}
		return s[off : off+n], true
	}
	if strings.Contains(r.Name, "#") && !strings.Contains(r.Name, "iter") {
		v.fail("imprecise sequence " + r.Name)
		return "", false
	}
	w, sg, ok := numType(r.Elem)
	if !ok || w > 8 {
		v.fail("element type of " + r.Name)
		return "", false
	}
	b := make([]byte, n)
	for i := range b {
		k := fmt.Sprintf("%d@%d", r.ID, off+int64(i))
		if x, ok := v.el[k]; ok {
			b[i] = byte(x)
			continue
		}
		e := elemNum(v.st, r, intConst(off+int64(i)), w, sg)
		b[i] = byte(v.numv(e))
	}
	return string(b), true
}

func (v *valuation) str(segs []Seg) (string, bool) {
	var sb strings.Builder
	for _, g := range segs {
		switch x := g.(type) {
		case *SegLit:
			sb.WriteString(x.S)
		case *SegElem:
			n, ok := x.V.(*Num)
			if !ok {
				v.fail("element")
				return "", false
			}
			sb.WriteByte(byte(v.numv(n)))
		case *SegSpan:
			s, ok := v.span(x.R, v.lin(x.Off), v.lin(x.N))
			if !ok {
				v.fail("span of " + x.R.Name)
				return "", false
			}
			sb.WriteString(s)
		case *SegComp:
			n := v.lin(x.N)
			off := v.lin(x.Off)
			if n < 0 || n > 1<<20 {
				v.fail("repetition count")
				return "", false
			}
			if n > 300 {
				n = 300
			}
			for j := int64(0); j < n; j++ {
				for _, e := range x.El {
					s := &subst{a: x.K, to: linConst(off + j), memo: map[int]*Lin{}}
					switch y := v.in.substVal(v.st, s, e).(type) {
					case *Num:
						sb.WriteByte(byte(v.numv(y)))
					case *StrV:
						t, ok := v.str(y.S)
						if !ok {
							return "", false
						}
						sb.WriteString(t)
					default:
						v.fail("repetition element")
						return "", false
					}
				}
			}
		default:
			v.fail("segment")
			return "", false
		}
		if v.bad {
			return "", false
		}
	}
	return sb.String(), true
}

// render gives a canonical text of the value
func (v *valuation) render(x Val) string {
	switch y := x.(type) {
	case nil:
		return "none"
	case *Num:
		return fmt.Sprintf("%d", v.numv(y))
	case *BoolV:
		switch v.cond(y.C) {
		case 1:
			return "true"
		case 0:
			return "false"
		}
		v.fail("condition " + y.C.String())
	case *StrV:
		s, ok := v.str(y.S)
		if !ok {
			v.fail("string")
		}
		return fmt.Sprintf("%q", s)
	case *SliceV:
		if y.Obj == 0 {
			return "[]"
		}
		if y.NilPred != "" {
			if isNil, ok := v.st.preds[y.NilPred]; ok && isNil {
				return "[]"
			}
		}
		return v.renderSegs(v.in.sliceSegs(v.st, y), y.Elem)
	case *ArrayV:
		return v.renderSegs(y.S, y.Elem)
	case *SeqV:
		return v.renderSegs(y.S, byteT)
	case *TupleV:
		s := []string{}
		for _, f := range y.V {
			s = append(s, v.render(f))
		}
		return strings.Join(s, " ")
	case *StructV:
		s := []string{}
		for _, f := range y.F {
			s = append(s, v.render(f))
		}
		return "{" + strings.Join(s, " ") + "}"
	case *showV:
		out := []string{}
		for _, k := range y.keys {
			x := y.st.ghost[k]
			if s, ok := x.(*SliceV); ok {
				if isNil, known := v.st.preds[s.NilPred]; known && isNil {
					continue
				}
			}
			out = append(out, strings.TrimPrefix(k, "json:")+"="+v.render(x))
		}
		return strings.Join(out, " ")
	case *IfaceV:
		return types.TypeString(y.T, func(p *types.Package) string { return p.Name() }) + v.render(y.V)
	case *NilIface:
		return "nil"
	case *PtrV:
		if y.Obj == 0 {
			return "nil"
		}
		return "&" + v.render(v.in.load(v.st, y, nil))
	case *OpaqueV:
		if strings.Contains(y.Key, "#") {
			v.fail("imprecise value " + y.Key)
		}
		return y.Key
	}
	v.fail(fmt.Sprintf("value %T", x))
	return "?"
}

func (v *valuation) renderSegs(segs []Seg, el types.Type) string {
	if w, _, ok := numType(el); ok && w == 8 {
		s, ok := v.str(segs)
		if !ok {
			v.fail("sequence")
		}
		return fmt.Sprintf("[% X]", s)
	}
	out := []string{}
	for _, g := range segs {
		e, ok := g.(*SegElem)
		if !ok {
			v.fail("sequence")
			return "?"
		}
		out = append(out, v.render(e.V))
	}
	return "[" + strings.Join(out, " ") + "]"
}

func (v *valuation) cond(c *Cond) int {
	r := -1
	switch c.Kind {
	case 'c':
		r = b2i(c.C)
	case 'g':
		r = b2i(v.lin(c.L) >= 0)
	case 'e':
		r = b2i(v.lin(c.L) == 0)
	case 's':
		if s, ok := v.root(c.R); ok {
			r = b2i(s == c.P)
		}
	case 'p':
		if x, ok := v.st.preds[c.P]; ok {
			r = b2i(x)
		}
	case 'a':
		r = 1
		for _, d := range c.Sub {
			switch v.cond(d) {
			case 0:
				r = 0
			case -1:
				if r == 1 {
					r = -1
				}
			}
		}
	}
	if r >= 0 && c.Neg {
		r = 1 - r
	}
	return r
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

// satisfied: the valuation satisfies the path condition of the state
func (v *valuation) satisfied() bool {
	for id, r := range v.st.iv {
		a := atomList[id]
		if imprecise(a.Name) && a.Op == "" {
			continue
		}
		c := v.atom(a)
		if v.bad || c < r.lo || c > r.hi {
			return false
		}
	}
	for id, k := range v.st.kb {
		a := atomList[id]
		if imprecise(a.Name) && a.Op == "" {
			continue
		}
		if c := v.atom(a); v.bad || uint64(c)&k.mask != k.val&k.mask {
			return false
		}
	}
	for _, f := range v.st.facts {
		if linImprecise(f) {
			continue
		}
		if c := v.lin(f); v.bad || c < 0 {
			return false
		}
	}
	for _, f := range v.st.neq {
		if linImprecise(f) {
			continue
		}
		if c := v.lin(f); v.bad || c == 0 {
			return false
		}
	}
	return !v.bad
}

func imprecise(name string) bool {
	return strings.Contains(name, "#") && !strings.Contains(name, "iter")
}

func linImprecise(l *Lin) bool {
	seen := map[int]bool{}
	var at func(a *Atom) bool
	var ln func(l *Lin) bool
	at = func(a *Atom) bool {
		if seen[a.ID] {
			return false
		}
		seen[a.ID] = true
		if a.Op == "" {
			return imprecise(a.Name)
		}
		if a.Root != nil && imprecise(a.Root.Name) {
			return true
		}
		for _, b := range a.Bits {
			if a.Op == "bits" && b.A != nil && b.A != a && at(b.A) {
				return true
			}
		}
		for _, x := range a.Args {
			if ln(x.L) {
				return true
			}
		}
		return false
	}
	ln = func(l *Lin) bool {
		for _, t := range l.T {
			if at(t.A) {
				return true
			}
		}
		return false
	}
	return ln(l)
}

// pathImprecise: the path condition depends on something the analysis does not know exactly
func (st *State) pathImprecise() string {
	if st.notes["join"] {
		return "joined paths"
	}
	for k := range st.notes {
		return k
	}
	for p, v := range st.preds {
		if !v && mayFail[p] {
			continue
		}
		if strings.HasPrefix(p, "strne:") || strings.HasPrefix(p, "nil:in.") {
			continue
		}
		if okPred(p) {
			continue
		}
		return "predicate " + p
	}
	for _, f := range st.facts {
		if linImprecise(f) {
			return "fact " + f.String()
		}
	}
	for _, f := range st.neq {
		if linImprecise(f) {
			return "fact " + f.String()
		}
	}
	for id := range st.iv {
		if a := atomList[id]; linImprecise(linAtom(a)) {
			return "range of " + a.String()
		}
	}
	return ""
}

// okPred: predicates that are free boolean inputs of the analysis
func okPred(p string) bool { return strings.HasPrefix(p, "in.") }

// differ tries to find a valuation satisfying the path condition of st for which the two values differ.
// It returns a witness, or "" with the reason why none was found.
func (in *Interp) differ(st *State, x, y Val, show ...Val) (string, string) {
	if w := st.pathImprecise(); w != "" {
		return "", "path condition is not exact (" + w + ")"
	}
	why := "no difference found"
	okc := 0
	for i := 0; i < 600 && okc < 80; i++ {
		v := &valuation{in: in, st: st, rng: rand.New(rand.NewSource(int64(i) + 1)), num: map[int]int64{}, el: map[string]int64{}, mode: i}
		var a, b string
		a = v.render(x)
		if !v.bad {
			b = v.render(y)
		}
		if v.bad {
			if why == "no difference found" {
				why = v.why
			}
			continue
		}
		if !v.satisfied() {
			if v.bad {
				why = v.why
			}
			continue
		}
		okc++
		if a != b {
			s := ""
			for _, z := range show {
				if s != "" {
					s += " "
				}
				s += v.render(z)
			}
			return fmt.Sprintf("for %s: got %s, expected %s", s, clip(a), clip(b)), ""
		}
	}
	if okc == 0 && why == "no difference found" {
		why = "no valuation of the path condition found"
	}
	return "", why
}

// witness: a valuation of the path condition, rendered for the given inputs
func (in *Interp) witness(st *State, show ...Val) (string, string) {
	if w := st.pathImprecise(); w != "" {
		return "", "path condition is not exact (" + w + ")"
	}
	why := ""
	for i := 0; i < 600; i++ {
		v := &valuation{in: in, st: st, rng: rand.New(rand.NewSource(int64(i) + 1)), num: map[int]int64{}, el: map[string]int64{}, mode: i}
		s := ""
		for _, z := range show {
			if s != "" {
				s += " "
			}
			s += v.render(z)
		}
		if v.bad || !v.satisfied() {
			if v.why != "" {
				why = v.why
			}
			continue
		}
		return "for " + s, ""
	}
	if why == "" {
		why = "no valuation of the path condition found"
	}
	return "", why
}

func clip(s string) string {
	if len(s) > 300 {
		return s[:300] + "..."
	}
	return s
}
