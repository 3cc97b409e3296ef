package main

// Values and sequences.

import (
	"fmt"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Val interface{}

// Cond: symbolic boolean
type Cond struct {
	Kind byte // 'c' const, 'g' L>=0, 'e' L==0, 'p' predicate, 'a' conjunction, 's' string root equals a literal
	R    *SeqAtom
	C    bool
	L    *Lin
	P    string
	Sub  []*Cond
	Neg  bool
}

type BoolV struct{ C *Cond }

func boolConst(b bool) *BoolV { return &BoolV{&Cond{Kind: 'c', C: b}} }
func condNot(c *Cond) *Cond {
	if c.Kind == 'c' {
		return &Cond{Kind: 'c', C: !c.C}
	}
	d := *c
	d.Neg = !d.Neg
	return &d
}
func predV(p string) *BoolV { return &BoolV{&Cond{Kind: 'p', P: p}} }

func (c *Cond) String() string {
	s := ""
	switch c.Kind {
	case 'c':
		return strconv.FormatBool(c.C)
	case 'g':
		s = c.L.String() + " >= 0"
	case 'e':
		s = c.L.String() + " == 0"
	case 'p':
		s = c.P
	case 's':
		s = c.R.Name + " == " + strconv.Quote(c.P)
	case 'a':
		x := []string{}
		for _, d := range c.Sub {
			x = append(x, d.String())
		}
		s = "(" + strings.Join(x, " && ") + ")"
	}
	if c.Neg {
		return "!(" + s + ")"
	}
	return s
}

type SeqAtom struct {
	VarEl []*Atom // element atoms with an index that is not constant
	ID    int
	Name  string
	Elem  types.Type
	Len   *Num
	Fmt   *FmtDesc
	JSON  *JNode
	Whole bool     // never expanded into elements
	Class cset     // the characters it may contain, nil: any
	First cset     // the characters it may start with
	Inv   *ElemInv // holds for every element
}

// ElemInv: what is known of every element of a sequence built by a loop
type ElemInv struct {
	minLen int64
	nonNil bool
}

// FmtDesc describes a string derived from values by formatting
type FmtDesc struct {
	Kind string // "dec", "hex2" (%02X), "hexlist", "app"
	N    *Num
	Segs []Seg // for hexlist: bytes
	Args []Val
}

var (
	seqIndex = map[string]*SeqAtom{}
	seqCount int
)

func newSeqAtom(name string, elem types.Type) *SeqAtom {
	seqCount++
	r := &SeqAtom{ID: seqCount, Name: name, Elem: elem}
	a := newAtom("len("+name+")", 64, true)
	a.Lo, a.Hi = 0, 1<<40
	r.Len = numAtom(a, 64, true)
	lenRoot[a.ID] = r
	return r
}

var lenRoot = map[int]*SeqAtom{}

func internSeq(key string, elem types.Type, mk func(r *SeqAtom)) *SeqAtom {
	if r, ok := seqIndex[key]; ok {
		return r
	}
	r := newSeqAtom(key, elem)
	if mk != nil {
		mk(r)
	}
	seqIndex[key] = r
	return r
}

type Seg interface{ slen() *Lin }

type SegElem struct{ V Val }
type SegLit struct{ S string }
type SegSpan struct {
	R   *SeqAtom
	Off *Lin
	N   *Lin
}
type SegComp struct { // elements El[k := Off+j], j in [0,N)
	K    *Atom
	El   []Val
	Off  *Lin
	N    *Lin
	Elem types.Type
	Str  bool // each El is a StrV (string concatenation), length unknown
	Len  *Lin
}

func (s *SegElem) slen() *Lin { return linConst(1) }
func (s *SegLit) slen() *Lin  { return linConst(int64(len(s.S))) }
func (s *SegSpan) slen() *Lin { return s.N }
func (s *SegComp) slen() *Lin {
	if s.Str {
		return s.Len
	}
	return linScale(s.N, int64(len(s.El)))
}

type SeqV struct{ S []Seg }

type StrV struct{ S []Seg }

func strLit(s string) *StrV {
	if s == "" {
		return &StrV{}
	}
	return &StrV{[]Seg{&SegLit{s}}}
}

func (s *StrV) lit() (string, bool) {
	out := ""
	for _, g := range s.S {
		switch x := g.(type) {
		case *SegLit:
			out += x.S
		case *SegElem:
			n, ok := x.V.(*Num)
			if !ok {
				return "", false
			}
			c, ok := n.constVal()
			if !ok {
				return "", false
			}
			out += string([]byte{byte(c)})
		default:
			return "", false
		}
	}
	return out, true
}

type SliceV struct {
	Obj     int // 0: nil slice
	Off     *Lin
	Len     *Lin
	Cap     *Lin
	Elem    types.Type
	NilPred string // "" : not nil (if Obj != 0)
}

type PathEl struct {
	F   int  // field index, or -1
	Idx *Lin // index
}

type PtrV struct {
	Obj     int // 0: nil
	Path    []PathEl
	NilPred string
}

type StructV struct {
	T types.Type
	F []Val
}

type ArrayV struct { // arrays are sequences
	S    []Seg
	Elem types.Type
}

type IfaceV struct {
	T types.Type
	V Val
}

type NilIface struct{}

type OpaqueV struct {
	Key      string
	T        types.Type
	NonNil   bool
	Distinct bool
	Args     []Val
	Text     string // format of an error's message, and its arguments
	TextArgs []Val
	Ts       []types.Type // possible dynamic types when known (besides nil)
}

type MapV struct {
	Obj     int // 0 nil
	NilPred string
}

type MapEntry struct {
	K, V Val
	Del  bool
}

type MapObj struct {
	E   []MapEntry // in insertion order; the last match wins
	Sym string     // non empty: symbolic base map of that name
	KT  types.Type
	VT  types.Type
}

type FuncV struct {
	F  *ssa.Function
	B  []Val
	Bl string // builtin
}

type TupleV struct{ V []Val }

type IterV struct{ Obj int }
type IterObj struct {
	Keys []Val
	Vals []Val
	Pos  int
	Sym  string // symbolic iteration
	KT   types.Type
	VT   types.Type
	N    int
}

type NilV struct{ T types.Type }

func linStr(l *Lin) string {
	if l == nil {
		return "?"
	}
	return l.String()
}

func segKey(g Seg) string {
	switch x := g.(type) {
	case *SegElem:
		return "E" + vkey(x.V)
	case *SegLit:
		return "L" + strconv.Quote(x.S)
	case *SegSpan:
		return fmt.Sprintf("S%d[%s;%s]", x.R.ID, x.Off.key(), x.N.key())
	case *SegComp:
		k := fmt.Sprintf("C%d[%s;%s](", x.K.ID, x.Off.key(), x.N.key())
		for _, e := range x.El {
			k += vkey(e) + ","
		}
		return k + ")"
	}
	return "?"
}

func segsKey(s []Seg) string {
	b := ""
	for _, g := range s {
		b += segKey(g) + ";"
	}
	return b
}

func vkey(v Val) string {
	switch x := v.(type) {
	case nil:
		return "<nil>"
	case *Num:
		return "n" + strconv.Itoa(x.W) + ":" + x.L.key()
	case *BoolV:
		return "b" + x.C.String()
	case *StrV:
		if s, ok := x.lit(); ok {
			return "s" + strconv.Quote(s)
		}
		return "s{" + segsKey(x.S) + "}"
	case *SeqV:
		return "q{" + segsKey(x.S) + "}"
	case *ArrayV:
		return "a{" + segsKey(x.S) + "}"
	case *SliceV:
		if x.Obj == 0 {
			return "sl0"
		}
		return fmt.Sprintf("sl%d[%s;%s]", x.Obj, x.Off.key(), x.Len.key())
	case *PtrV:
		k := fmt.Sprintf("p%d%s", x.Obj, x.NilPred)
		for _, p := range x.Path {
			if p.Idx != nil {
				k += "[" + p.Idx.key() + "]"
			} else {
				k += "." + strconv.Itoa(p.F)
			}
		}
		return k
	case *StructV:
		k := "st("
		for _, f := range x.F {
			k += vkey(f) + ","
		}
		return k + ")"
	case *IfaceV:
		return "i<" + x.T.String() + ">" + vkey(x.V)
	case *NilIface:
		return "inil"
	case *OpaqueV:
		return "o:" + x.Key
	case *MapV:
		return "m" + strconv.Itoa(x.Obj)
	case *FuncV:
		if x.F == nil {
			return "f:" + x.Bl
		}
		k := "f:" + x.F.String()
		for _, b := range x.B {
			k += "," + vkey(b)
		}
		return k
	case *TupleV:
		k := "t("
		for _, f := range x.V {
			k += vkey(f) + ","
		}
		return k + ")"
	case *IterV:
		return "it" + strconv.Itoa(x.Obj)
	case *MapObj:
		k := "mo" + x.Sym
		for _, e := range x.E {
			k += "," + vkey(e.K) + "=" + vkey(e.V)
		}
		return k
	case *IterObj:
		return fmt.Sprintf("io%d/%d%s%d", x.Pos, len(x.Keys), x.Sym, x.N)
	case *ReaderObj:
		return "rd" + x.Kind + segsKey(x.S) + x.Pos.key() + vkey(x.Src)
	case *BufObj:
		return "bf" + segsKey(x.S)
	case *NilV:
		return "nilv"
	case *ChanV:
		return "chan" + strconv.Itoa(x.Obj)
	case *ChanObj:
		return chanKey(x)
	case *ScanObj:
		return fmt.Sprintf("scan%d/%d%v%s%s", x.Pos, len(x.Lines), x.Any, vkey(x.Err), vkey(x.Cur))
	}
	return fmt.Sprintf("%T", v)
}

func segString(g Seg) string {
	switch x := g.(type) {
	case *SegElem:
		return vstr(x.V)
	case *SegLit:
		return strconv.Quote(x.S)
	case *SegSpan:
		if x.R.Fmt != nil {
			return x.R.Name
		}
		return fmt.Sprintf("%s[%v+:%v]", x.R.Name, x.Off, x.N)
	case *SegComp:
		el := []string{}
		for _, e := range x.El {
			el = append(el, vstr(e))
		}
		return fmt.Sprintf("<%s for k in %v+:%v>", strings.Join(el, " "), x.Off, x.N)
	}
	return "?"
}

func segsString(s []Seg) string {
	x := []string{}
	for _, g := range s {
		x = append(x, segString(g))
	}
	return strings.Join(x, " ")
}

func vstr(v Val) string {
	switch x := v.(type) {
	case nil:
		return "<none>"
	case *Num:
		if c, ok := x.constVal(); ok && c > 9 {
			return fmt.Sprintf("0x%02X", c)
		}
		return x.String()
	case *BoolV:
		return x.C.String()
	case *StrV:
		return "\u201c" + segsString(x.S) + "\u201d"
	case *SeqV:
		return "[" + segsString(x.S) + "]"
	case *ArrayV:
		return "[" + segsString(x.S) + "]"
	case *StructV:
		s := []string{}
		for i, f := range x.F {
			n := strconv.Itoa(i)
			if st, ok := x.T.Underlying().(*types.Struct); ok {
				n = st.Field(i).Name()
			}
			s = append(s, n+":"+vstr(f))
		}
		return "{" + strings.Join(s, " ") + "}"
	case *IfaceV:
		return x.T.String() + vstr(x.V)
	}
	return vkey(v)
}
