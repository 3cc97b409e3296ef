package main

import (
	"fmt"
	"go/types"
	"regexp"
	"regexp/syntax"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// ReaderObj: a byte source with a read position
type ReaderObj struct {
	Kind string
	S    []Seg
	Pos  *Lin
	Src  Val
}

// BufObj: contents of a bytes.Buffer / strings.Builder
type BufObj struct{ S []Seg }

func modelledStruct(t types.Type) string {
	n, ok := t.(*types.Named)
	if !ok {
		return ""
	}
	o := n.Obj()
	if o.Pkg() == nil {
		return ""
	}
	switch o.Pkg().Path() + "." + o.Name() {
	case "bytes.Buffer", "strings.Builder":
		return "buf"
	case "bytes.Reader", "bufio.Reader", "strings.Reader":
		return "reader"
	case "bufio.Scanner", "encoding/json.Decoder", "regexp.Regexp", "text/template.Template", "os.File", "sync.Mutex", "sync.WaitGroup", "sync.Once", "time.Time", "flag.FlagSet", "sync.RWMutex", "reflect.rtype":
		return "opaque"
	}
	return ""
}

func (in *Interp) zeroModelled(st *State, name string, t types.Type) Val {
	switch name {
	case "buf":
		return &BufObj{}
	case "reader":
		return &ReaderObj{Kind: "bytes", Pos: linConst(0)}
	}
	return &OpaqueV{Key: "zero:" + t.String(), T: t, NonNil: true}
}

func (in *Interp) symModelled(st *State, name string, t types.Type, key string) Val {
	switch name {
	case "buf":
		r := newSeqAtom(key, byteT)
		return &BufObj{S: []Seg{&SegSpan{r, linConst(0), r.Len.L}}}
	case "reader":
		r := newSeqAtom(key, byteT)
		return &ReaderObj{Kind: "bytes", S: []Seg{&SegSpan{r, linConst(0), r.Len.L}}, Pos: linConst(0)}
	}
	return &OpaqueV{Key: key, T: t, NonNil: true}
}

var errorT = types.Universe.Lookup("error").Type()

func (in *Interp) newErr(what string) Val {
	return &OpaqueV{Key: in.freshName("err:" + what), T: errorT, NonNil: true}
}

var eofErr = &OpaqueV{Key: "global:io.EOF", T: errorT, NonNil: true, Distinct: true}
var unexpEOF = &OpaqueV{Key: "global:io.ErrUnexpectedEOF", T: errorT, NonNil: true, Distinct: true}
var noErr = &NilIface{}

func tup(v ...Val) *TupleV { return &TupleV{v} }

// ---- helpers on modelled objects

func (c *callCtx) buf(i int) (*PtrV, *BufObj) {
	v := c.args[i]
	if f, ok := v.(*IfaceV); ok {
		v = f.V
	}
	p, ok := v.(*PtrV)
	if !ok || p.Obj == 0 {
		return nil, nil
	}
	b, ok := c.in.walk(c.st, c.in.object(c.st, p.Obj), p.Path).(*BufObj)
	if !ok {
		return nil, nil
	}
	return p, b
}

func (c *callCtx) reader(i int) (*PtrV, *ReaderObj) {
	v := c.args[i]
	if f, ok := v.(*IfaceV); ok {
		v = f.V
	}
	p, ok := v.(*PtrV)
	if !ok || p.Obj == 0 {
		return nil, nil
	}
	b, ok := c.in.walk(c.st, c.in.object(c.st, p.Obj), p.Path).(*ReaderObj)
	if !ok {
		return nil, nil
	}
	return p, b
}

func (c *callCtx) havoc() []callRes {
	n := "?"
	if c.fn != nil {
		n = c.fn.String()
	}
	return c.in.havocCall(c.st, n, c.sig, c.args)
}

func (c *callCtx) str(i int) (*StrV, bool) {
	if i >= len(c.args) {
		return nil, false
	}
	s, ok := c.args[i].(*StrV)
	if !ok {
		return nil, false
	}
	return &StrV{c.in.normSegs(c.st, s.S)}, true
}

func (c *callCtx) lits(n int) ([]string, bool) {
	var out []string
	for i := 0; i < n; i++ {
		s, ok := c.str(i)
		if !ok {
			return nil, false
		}
		l, ok := s.lit()
		if !ok {
			return nil, false
		}
		out = append(out, l)
	}
	return out, true
}

// branch on a condition
func (c *callCtx) branch(cond *Cond, yes, no func(st *State) []callRes) []callRes {
	switch c.st.evalCond(cond) {
	case 1:
		return yes(c.st)
	case 0:
		return no(c.st)
	}
	s := c.st.clone()
	s.assume(cond, true)
	c.st.assume(cond, false)
	var out []callRes
	if !s.dead {
		out = append(out, yes(s)...)
	}
	if !c.st.dead {
		out = append(out, no(c.st)...)
	}
	return out
}

func (c *callCtx) readN(p *PtrV, r *ReaderObj, n *Lin, yes func(st *State, segs []Seg, adv func()) []callRes, no func(st *State) []callRes) []callRes {
	rest := linSub(linSub(seqLen(r.S), r.Pos), n)
	return c.branch(geCond(rest), func(st *State) []callRes {
		segs := c.in.subAny(st, r.S, r.Pos, linAdd(r.Pos, n), byteT)
		return yes(st, segs, func() {
			q := *r
			q.Pos = st.resolveLin(linAdd(r.Pos, n))
			c.in.store(st, p, &q)
		})
	}, no)
}

func readByte(c *callCtx) []callRes {
	p, r := c.reader(0)
	if r == nil {
		return c.havoc()
	}
	return c.readN(p, r, linConst(1), func(st *State, segs []Seg, adv func()) []callRes {
		adv()
		v, ok := c.in.seqIndexAt(st, segs, linConst(0))
		if !ok {
			v = c.in.symVal(st, byteT, c.in.freshName("byte"))
		}
		return one(st, tup(v, noErr))
	}, func(st *State) []callRes {
		return one(st, tup(numConst(0, 8, false), eofErr))
	})
}

func readInto(c *callCtx) []callRes { // Read(p []byte)
	p, r := c.reader(0)
	d, ok := c.args[1].(*SliceV)
	if r == nil || !ok {
		return c.havoc()
	}
	n := d.lenLin()
	return c.branch(&Cond{Kind: 'e', L: n}, func(st *State) []callRes {
		return one(st, tup(intConst(0), noErr))
	}, func(st *State) []callRes {
		c2 := *c
		c2.st = st
		return c2.readN(p, r, n, func(st *State, segs []Seg, adv func()) []callRes {
			adv()
			c.in.overwrite(st, d.Obj, d.Off, segs, n, d.Elem)
			return one(st, tup(intLin(n), noErr))
		}, func(st *State) []callRes {
			// short: whatever is left, or EOF
			rem := linSub(seqLen(r.S), r.Pos)
			c3 := c2
			c3.st = st
			return c3.branch(geCond(linAddK(rem, 1, linConst(-1))), func(st *State) []callRes {
				segs := c.in.subAny(st, r.S, r.Pos, seqLen(r.S), byteT)
				c.in.overwrite(st, d.Obj, d.Off, segs, rem, d.Elem)
				q := *r
				q.Pos = seqLen(r.S)
				c.in.store(st, p, &q)
				return one(st, tup(intLin(rem), noErr))
			}, func(st *State) []callRes {
				return one(st, tup(intConst(0), eofErr))
			})
		})
	})
}

func bufWrite(c *callCtx, add []Seg, ret func(n *Lin) Val) []callRes {
	p, b := c.buf(0)
	if b == nil {
		return c.havoc()
	}
	c.in.store(c.st, p, &BufObj{S: c.in.joinSegs(c.st, append(append([]Seg{}, b.S...), add...))})
	return one(c.st, ret(seqLen(add)))
}

func (in *Interp) beBytes(st *State, n *Num, w int, little bool) []Seg {
	bits := bitsOf(st, n)
	var out []Seg
	for i := 0; i < w/8; i++ {
		k := w/8 - 1 - i
		if little {
			k = i
		}
		v := make([]Bit, 8)
		copy(v, bits[8*k:8*k+8])
		out = append(out, &SegElem{numFromBits(st, v, 8, false)})
	}
	return out
}

// dynamic value behind an interface argument
func dyn(v Val) (types.Type, Val) {
	if f, ok := v.(*IfaceV); ok {
		return f.T, f.V
	}
	return nil, v
}

func binaryWrite(c *callCtx) []callRes {
	p, b := c.buf(0)
	t, v := dyn(c.args[2])
	order := ""
	if ot, _ := dyn(c.args[1]); ot != nil {
		order = ot.String()
	}
	enc := func(t types.Type, v Val) ([]Seg, bool) {
		var rec func(t types.Type, v Val) ([]Seg, bool)
		rec = func(t types.Type, v Val) ([]Seg, bool) {
			switch u := t.Underlying().(type) {
			case *types.Pointer:
				if pv, ok := v.(*PtrV); ok && pv.Obj != 0 {
					return rec(u.Elem(), c.in.load(c.st, pv, u.Elem()))
				}
			case *types.Struct:
				s, ok := v.(*StructV)
				if !ok {
					return nil, false
				}
				var out []Seg
				for i := 0; i < u.NumFields(); i++ {
					x, ok := rec(u.Field(i).Type(), s.F[i])
					if !ok {
						return nil, false
					}
					out = append(out, x...)
				}
				return out, true
			case *types.Slice, *types.Array:
				var segs []Seg
				var et types.Type
				switch y := v.(type) {
				case *SliceV:
					segs, et = c.in.sliceSegs(c.st, y), y.Elem
				case *ArrayV:
					segs, et = y.S, y.Elem
				default:
					return nil, false
				}
				if w, _, ok := numType(et); ok && w == 8 {
					return segs, true
				}
				var out []Seg
				for _, g := range c.in.normSegs(c.st, segs) {
					e, ok := g.(*SegElem)
					if !ok {
						return nil, false
					}
					x, ok := rec(et, e.V)
					if !ok {
						return nil, false
					}
					out = append(out, x...)
				}
				return out, true
			}
			if bt, ok := t.Underlying().(*types.Basic); ok && (bt.Kind() == types.Int || bt.Kind() == types.Uint || bt.Kind() == types.Uintptr) {
				return nil, false
			}
			if w, _, ok := numType(t); ok {
				if n, ok := v.(*Num); ok {
					return c.in.beBytes(c.st, n, w, strings.Contains(order, "little")), true
				}
			}
			return nil, false
		}
		return rec(t, v)
	}
	if b != nil && t != nil {
		if segs, ok := enc(t, v); ok {
			c.in.store(c.st, p, &BufObj{S: append(append([]Seg{}, b.S...), segs...)})
			return one(c.st, noErr)
		}
		bt, _ := t.Underlying().(*types.Basic)
		if bt != nil && (bt.Kind() == types.Int || bt.Kind() == types.Uint || bt.Kind() == types.String) {
			return one(c.st, c.in.newErr("binary.Write: invalid type"))
		}
	}
	return c.havoc()
}

// ---------------------------------------------------------------- formatting

type strRes struct {
	st *State
	s  *StrV
}

// sprint renders one operand for a verb
func (c *callCtx) fmtArg(st *State, verb string, a Val) []strRes {
	in := c.in
	t, v := dyn(a)
	kind := verb[len(verb)-1]
	opts := verb[1 : len(verb)-1]
	pad := func(rs []strRes) []strRes {
		w := strings.Trim(opts, "+#0 ")
		if w == "" || kind == 'd' && strings.HasPrefix(opts, "0") {
			return rs
		}
		left := strings.HasPrefix(w, "-")
		n, err := strconv.Atoi(strings.TrimPrefix(w, "-"))
		if err != nil {
			return rs
		}
		for i := range rs {
			if l, ok := rs[i].s.lit(); ok {
				if left {
					l = fmt.Sprintf("%-*s", n, l)
				} else {
					l = fmt.Sprintf("%*s", n, l)
				}
				rs[i].s = strLit(l)
				continue
			}
			segs := rs[i].s.S
			r := internSeq(fmt.Sprintf("pad:%d:%v:%s", n, left, segsKey(segs)), byteT, func(r *SeqAtom) {
				r.Fmt = &FmtDesc{Kind: "pad", Segs: segs, N: intConst(int64(n))}
				if left {
					r.Fmt.Kind = "padr"
				}
				r.Name = "pad(" + segsString(segs) + ")"
			})
			rs[i].s = wholeStr(r)
		}
		return rs
	}
	if (kind == 'v' || kind == 's') && t != nil && !strings.Contains(opts, "#") {
		for _, m := range []string{"Error", "String"} {
			fn := in.P.methodOf(t, m)
			if fn == nil || fn.Signature.Params().Len() != 0 || fn.Signature.Results().Len() != 1 || !isString(fn.Signature.Results().At(0).Type()) {
				continue
			}
			if !in.P.isRepoFn(fn) && fn.Synthetic == "" {
				break
			}
			in.quiet++
			sv := in.quietFail
			in.quietFail = false
			pre := st.clone()
			rs := in.callFn(st, c.instr, fn, []Val{v}, nil)
			failed := in.quietFail
			in.quietFail = sv
			in.quiet--
			var out []strRes
			for _, r := range rs {
				if s, ok := r.val.(*StrV); ok {
					out = append(out, strRes{r.st, s})
				} else {
					out = append(out, strRes{r.st, wholeStr(newSeqAtom(in.freshName("str"), byteT))})
				}
			}
			if failed {
				out = append(out, strRes{pre, wholeStr(newSeqAtom(in.freshName("panicstr"), byteT))})
			}
			return pad(out)
		}
	}
	app := func() []strRes {
		k := vkey(a)
		if sl, ok := v.(*SliceV); ok {
			k = "slice:" + segsKey(in.normSegs(st, in.sliceSegs(st, sl)))
		}
		r := internSeq("fmt:"+verb+":"+k, byteT, func(r *SeqAtom) {
			r.Fmt = &FmtDesc{Kind: "app", Args: []Val{a}}
			r.Name = verb + "(" + vstr(v) + ")"
		})
		return []strRes{{st, wholeStr(r)}}
	}
	switch x := v.(type) {
	case *Num:
		n := st.resolve(x)
		cv, isc := n.constVal()
		switch kind {
		case 'd', 'v', 's':
			if kind == 's' {
				return app()
			}
			if isc {
				return []strRes{{st, strLit(fmt.Sprintf("%"+opts+"d", cv))}}
			}
			z := strings.TrimLeft(opts, "-")
			if strings.HasPrefix(z, "0") && len(z) > 1 {
				r := fmtRoot(st, "dec"+z, n)
				if w, err := strconv.Atoi(z[1:]); err == nil {
					r.Len.L.T[0].A.Lo = int64(w)
				}
				return []strRes{{st, wholeStr(r)}}
			}
			return pad([]strRes{{st, wholeStr(fmtRoot(st, "dec", n))}})
		case 'X', 'x':
			if isc {
				return []strRes{{st, strLit(fmt.Sprintf(verb, cv))}}
			}
			if opts == "02" && kind == 'X' {
				return []strRes{{st, wholeStr(fmtRoot(st, "hex2", n))}}
			}
			return []strRes{{st, wholeStr(fmtRoot(st, "hex"+opts+string(kind), n))}}
		case 'c', 'q':
			return app()
		}
		return app()
	case *StrV:
		switch kind {
		case 'v', 's':
			return pad([]strRes{{st, x}})
		case 'q':
			if l, ok := x.lit(); ok {
				return []strRes{{st, strLit(strconv.Quote(l))}}
			}
		}
		return app()
	case *BoolV:
		if r := st.evalCond(x.C); r >= 0 && (kind == 'v' || kind == 't') {
			return []strRes{{st, strLit(strconv.FormatBool(r == 1))}}
		}
		return app()
	}
	if kind == 'T' && t != nil {
		return []strRes{{st, strLit(types.TypeString(t, func(p *types.Package) string { return p.Name() }))}}
	}
	return app()
}

func (c *callCtx) sprintf(format string, args []Val) []strRes {
	cur := []strRes{{c.st, &StrV{}}}
	ai := 0
	i := 0
	addLit := func(s string) {
		for k := range cur {
			cur[k].s = &StrV{append(append([]Seg{}, cur[k].s.S...), &SegLit{s})}
		}
	}
	for i < len(format) {
		j := strings.IndexByte(format[i:], '%')
		if j < 0 {
			addLit(format[i:])
			break
		}
		if j > 0 {
			addLit(format[i : i+j])
		}
		i += j
		k := i + 1
		for k < len(format) && strings.IndexByte("+-# 0123456789.", format[k]) >= 0 {
			k++
		}
		if k >= len(format) {
			addLit("%!(NOVERB)")
			break
		}
		verb := format[i : k+1]
		i = k + 1
		if verb[len(verb)-1] == '%' {
			addLit("%")
			continue
		}
		if ai >= len(args) {
			addLit("%!" + verb[len(verb)-1:] + "(MISSING)")
			continue
		}
		a := args[ai]
		ai++
		var nx []strRes
		for _, r := range cur {
			for _, f := range c.fmtArg(r.st, verb, a) {
				nx = append(nx, strRes{f.st, &StrV{append(append([]Seg{}, r.s.S...), f.s.S...)}})
			}
		}
		cur = nx
	}
	for k := range cur {
		cur[k].s = &StrV{c.in.normSegs(cur[k].st, cur[k].s.S)}
	}
	return cur
}

func (c *callCtx) variadic(i int) ([]Val, bool) {
	switch s := c.args[i].(type) {
	case *SliceV:
		var out []Val
		for _, g := range c.in.normSegs(c.st, c.in.sliceSegs(c.st, s)) {
			e, ok := g.(*SegElem)
			if !ok {
				return nil, false
			}
			out = append(out, e.V)
		}
		return out, true
	case *NilV:
		return nil, true
	}
	return nil, false
}

// ---------------------------------------------------------------- strings

func strModel2(f func(a, b string) string) model {
	return func(c *callCtx) []callRes {
		if l, ok := c.lits(2); ok {
			return one(c.st, strLit(f(l[0], l[1])))
		}
		return c.strApp()
	}
}

// strApp: a string that is a deterministic function of its arguments
func (c *callCtx) strApp() []callRes {
	k := c.fn.String()
	var args []Val
	for i, a := range c.args {
		if s, ok := c.str(i); ok {
			a = s
		}
		k += "|" + vkey(a)
		args = append(args, a)
	}
	r := internSeq(k, byteT, func(r *SeqAtom) { r.Fmt = &FmtDesc{Kind: "fn:" + c.fn.String(), Args: args} })
	return one(c.st, wholeStr(r))
}

func (c *callCtx) boolApp() []callRes {
	k := c.fn.String()
	for i, a := range c.args {
		if s, ok := c.str(i); ok {
			a = s
		}
		k += "|" + vkey(a)
	}
	return one(c.st, predV(k))
}

func strPred2(f func(a, b string) bool) model {
	return func(c *callCtx) []callRes {
		if l, ok := c.lits(2); ok {
			return one(c.st, boolConst(f(l[0], l[1])))
		}
		return c.boolApp()
	}
}

var models = map[string]model{}

func noop(c *callCtx) []callRes {
	if c.sig.Results().Len() == 0 {
		return one(c.st, tup())
	}
	return c.havoc()
}

func parseNum(c *callCtx, signed bool) []callRes {
	in := c.in
	st := c.st
	s, ok := c.str(0)
	base, ok2 := c.args[1].(*Num)
	bits, ok3 := c.args[2].(*Num)
	if !ok || !ok2 || !ok3 {
		return c.havoc()
	}
	bs, k2 := base.constVal()
	bt, k3 := bits.constVal()
	if !k2 || !k3 {
		return c.havoc()
	}
	if bt == 0 {
		bt = 64
	}
	fail := func(st *State) callRes {
		return callRes{st, tup(numConst(0, 64, signed), in.newErr("strconv"))}
	}
	if l, ok := s.lit(); ok {
		if signed {
			v, err := strconv.ParseInt(l, int(bs), int(bt))
			if err != nil {
				return []callRes{fail(st)}
			}
			return one(st, tup(numConst(v, 64, true), noErr))
		}
		v, err := strconv.ParseUint(l, int(bs), int(bt))
		if err != nil {
			return []callRes{fail(st)}
		}
		return one(st, tup(numConst(int64(v), 64, false), noErr))
	}
	lo, hi := int64(0), int64(1)<<62-1
	if bt < 62 {
		hi = int64(1)<<uint(bt) - 1
	}
	if signed {
		hi = int64(1)<<uint(bt-1) - 1
		lo = -hi - 1
	}
	// the decimal rendering of a number
	if len(s.S) == 1 && bs == 10 {
		if sp, ok := s.S[0].(*SegSpan); ok && sp.R.Fmt != nil && strings.HasPrefix(sp.R.Fmt.Kind, "dec") {
			n := numConv(st, sp.R.Fmt.N, 64, signed)
			if !sp.R.Fmt.N.Signed || signed || st.proveGE(sp.R.Fmt.N.L) {
				var out []callRes
				inr := &Cond{Kind: 'a', Sub: []*Cond{geCond(linAddK(n.L, 1, linConst(-lo))), geCond(linAddK(linScale(n.L, -1), 1, linConst(hi)))}}
				switch st.evalCond(inr) {
				case 1:
					return one(st, tup(n, noErr))
				case 0:
					return []callRes{fail(st)}
				}
				s2 := st.clone()
				s2.assume(inr, true)
				if !s2.dead {
					out = append(out, callRes{s2, tup(n, noErr)})
				}
				for _, c := range inr.Sub {
					s3 := st.clone()
					s3.assume(c, false)
					if !s3.dead {
						out = append(out, fail(s3))
					}
				}
				return out
			}
		}
	}
	s2 := st.clone()
	a := internAtom(fmt.Sprintf("parse:%v:%d:%d:%s", signed, bs, bt, segsKey(s.S)), 64, signed, func(a *Atom) {
		a.Lo, a.Hi = lo, hi
		a.Name = "parse(" + segsString(s.S) + ")"
	})
	p := predV("parse:" + a.Name).C
	s2.assume(p, true)
	st.assume(p, false)
	var out []callRes
	if !s2.dead {
		out = append(out, callRes{s2, tup(numAtom(a, 64, signed), noErr)})
	}
	if !st.dead {
		out = append(out, fail(st))
	}
	return out
}

// hexBytes: bytes spelled by hex pairs (spaces already removed)
func (in *Interp) hexBytes(st *State, segs []Seg) ([]Seg, bool) {
	var out []Seg
	lit := ""
	flush := func() bool {
		if len(lit)%2 != 0 {
			return false
		}
		for i := 0; i < len(lit); i += 2 {
			v, err := strconv.ParseUint(lit[i:i+2], 16, 8)
			if err != nil {
				return false
			}
			out = append(out, &SegElem{numConst(int64(v), 8, false)})
		}
		lit = ""
		return true
	}
	for _, g := range segs {
		switch x := g.(type) {
		case *SegLit:
			lit += x.S
		case *SegSpan:
			if x.R.Fmt == nil {
				return nil, false
			}
			switch x.R.Fmt.Kind {
			case "hex2":
				if x.R.Fmt.N.W != 8 || !flush() {
					return nil, false
				}
				out = append(out, &SegElem{x.R.Fmt.N})
			case "hexlist":
				if !flush() {
					return nil, false
				}
				out = append(out, x.R.Fmt.Segs...)
			default:
				return nil, false
			}
		case *SegComp:
			if !x.Str || !flush() {
				return nil, false
			}
			// elements of the form hex2(n)
			e, ok := x.El[0].(*StrV)
			if !ok {
				return nil, false
			}
			b, ok := in.hexBytes(st, e.S)
			if !ok || len(b) != 1 {
				return nil, false
			}
			el := b[0].(*SegElem)
			out = append(out, &SegComp{K: x.K, El: []Val{el.V}, Off: x.Off, N: x.N, Elem: byteT})
		default:
			return nil, false
		}
	}
	if !flush() {
		return nil, false
	}
	return out, true
}

// stripSpace removes white space from a structured string
func (in *Interp) stripSpace(st *State, segs []Seg) ([]Seg, bool) {
	ws := regexp.MustCompile(`\s+`)
	var out []Seg
	for _, g := range segs {
		switch x := g.(type) {
		case *SegLit:
			if s := ws.ReplaceAllString(x.S, ""); s != "" {
				out = append(out, &SegLit{s})
			}
		case *SegSpan:
			if x.R.Fmt == nil || !asciiFmt(x.R.Fmt) {
				return nil, false
			}
			out = append(out, g)
		case *SegComp:
			if !x.Str {
				return nil, false
			}
			e, ok := x.El[0].(*StrV)
			if !ok {
				return nil, false
			}
			s, ok := in.stripSpace(st, e.S)
			if !ok {
				return nil, false
			}
			y := *x
			y.El = []Val{&StrV{s}}
			r := internSeq("striplen:"+segKey(x), byteT, nil)
			y.Len = r.Len.L
			out = append(out, &y)
		default:
			return nil, false
		}
	}
	return out, true
}

// hexDump: the bytes of a string made of "XX " groups; from and the result are places in a group
func (in *Interp) hexDump(st *State, segs []Seg, from int) ([]Seg, int, bool) {
	var out []Seg
	pos, acc := from, 0 // in a group
	char := func(c rune) bool {
		d := strings.IndexRune("0123456789ABCDEF", c)
		switch {
		case pos == 2 && c == ' ':
			pos, acc = 0, 0
		case pos < 2 && d >= 0:
			acc = acc<<4 | d
			if pos++; pos == 2 {
				out = append(out, &SegElem{numConst(int64(acc), 8, false)})
			}
		default:
			return false
		}
		return true
	}
	for _, g := range segs {
		switch x := g.(type) {
		case *SegLit:
			for _, c := range x.S {
				if !char(c) {
					return nil, 0, false
				}
			}
		case *SegElem:
			n, ok := x.V.(*Num)
			if !ok {
				return nil, 0, false
			}
			if c, ok := n.constVal(); !ok || !char(rune(c)) {
				return nil, 0, false
			}
		case *SegSpan:
			if pos != 0 || x.R.Fmt == nil || x.R.Fmt.Kind != "hex2" || x.R.Fmt.N.W != 8 {
				return nil, 0, false
			}
			out = append(out, &SegElem{x.R.Fmt.N})
			pos = 2
		case *SegComp:
			if pos == 1 || !x.Str {
				return nil, 0, false
			}
			e, ok := x.El[0].(*StrV)
			if !ok {
				return nil, 0, false
			}
			b, to, ok := in.hexDump(st, e.S, pos)
			if !ok || to != pos || len(b) != 1 {
				return nil, 0, false
			}
			el, ok := b[0].(*SegElem)
			if !ok {
				return nil, 0, false
			}
			c := &SegComp{K: x.K, El: []Val{el.V}, Off: x.Off, N: x.N, Elem: byteT}
			if q := in.compAsSpan(st, c); q != nil {
				out = append(out, q)
			} else {
				out = append(out, c)
			}
		default:
			return nil, 0, false
		}
	}
	return out, pos, true
}

// hexList is the string of the bytes as hex pairs with single blanks in between
func (in *Interp) hexList(st *State, bs []Seg) []Seg {
	bs = in.normSegs(st, bs)
	r := internSeq("hexlist:"+segsKey(bs), byteT, func(r *SeqAtom) {
		r.Fmt = &FmtDesc{Kind: "hexlist", Segs: bs}
		r.Name = "hexdump(" + segsString(bs) + ")"
		if debugOn {
			println(r.Name)
		}
	})
	if lo, hi := st.rangeLin(seqLen(bs)); hi < 1<<40 {
		st.setRange(r.Len.L.T[0].A, max(0, 3*lo-1), max(0, 3*hi-1))
	}
	return wholeStr(r).S
}

// canonHex recognises a string built as a list of hex bytes
func (in *Interp) canonHex(st *State, segs []Seg) []Seg {
	for _, g := range segs {
		if _, ok := g.(*SegComp); ok {
			if bs, pos, ok := in.hexDump(st, segs, 0); ok && pos == 2 {
				return in.hexList(st, bs)
			}
		}
	}
	return segs
}

func (in *Interp) trimSpace(st *State, segs []Seg) ([]Seg, bool) {
	segs = append([]Seg{}, segs...)
	for len(segs) > 0 {
		l, ok := segs[0].(*SegLit)
		if !ok {
			break
		}
		t := strings.TrimLeft(l.S, " \t\r\n")
		if t != "" {
			segs[0] = &SegLit{t}
			break
		}
		segs = segs[1:]
	}
	for len(segs) > 0 {
		l, ok := segs[len(segs)-1].(*SegLit)
		if !ok {
			break
		}
		t := strings.TrimRight(l.S, " \t\r\n")
		if t != "" {
			segs[len(segs)-1] = &SegLit{t}
			break
		}
		segs = segs[:len(segs)-1]
	}
	if len(segs) == 0 {
		return segs, true
	}
	edge := func(g Seg, left bool) bool {
		switch x := g.(type) {
		case *SegLit:
			return true
		case *SegSpan:
			return x.R.Fmt != nil && asciiFmt(x.R.Fmt)
		case *SegComp:
			if !x.Str {
				return false
			}
			e, ok := x.El[0].(*StrV)
			if !ok || len(e.S) == 0 {
				return false
			}
			if left {
				s, ok := e.S[0].(*SegSpan)
				return ok && s.R.Fmt != nil && asciiFmt(s.R.Fmt)
			}
			return false
		}
		return false
	}
	// hex dump: "XX " repeated
	if _, ok := segs[len(segs)-1].(*SegComp); ok {
		if bs, pos, ok := in.hexDump(st, segs, 0); ok && (pos == 0 || pos == 2) {
			return in.hexList(st, bs), true
		}
	}
	if edge(segs[0], true) && edge(segs[len(segs)-1], false) {
		return segs, true
	}
	return nil, false
}

func init() {
	m := models
	// bytes, bufio
	m["bytes.NewReader"] = func(c *callCtx) []callRes {
		segs, ok := c.in.bytesOf(c.st, c.args[0])
		if !ok {
			return c.havoc()
		}
		return one(c.st, &PtrV{Obj: c.st.alloc(&ReaderObj{Kind: "bytes", S: segs, Pos: linConst(0)})})
	}
	m["strings.NewReader"] = m["bytes.NewReader"]
	nb := func(c *callCtx) []callRes {
		segs, ok := c.in.bytesOf(c.st, c.args[0])
		if !ok {
			return c.havoc()
		}
		return one(c.st, &PtrV{Obj: c.st.alloc(&BufObj{S: segs})})
	}
	m["bytes.NewBuffer"] = nb
	m["bytes.NewBufferString"] = nb
	m["bufio.NewReader"] = func(c *callCtx) []callRes {
		if p, r := c.reader(0); r != nil {
			return one(c.st, p)
		}
		if p, b := c.buf(0); b != nil {
			_ = p
			return one(c.st, &PtrV{Obj: c.st.alloc(&ReaderObj{Kind: "bytes", S: b.S, Pos: linConst(0)})})
		}
		return one(c.st, &PtrV{Obj: c.st.alloc(c.in.symModelled(c.st, "reader", nil, "rd:"+vkey(c.args[0])))})
	}
	for _, t := range []string{"(*bytes.Reader)", "(*bufio.Reader)", "(*strings.Reader)"} {
		m[t+".ReadByte"] = readByte
		m[t+".Read"] = readInto
		m[t+".Len"] = func(c *callCtx) []callRes {
			_, r := c.reader(0)
			if r == nil {
				return c.havoc()
			}
			return one(c.st, intLin(c.st.resolveLin(linSub(seqLen(r.S), r.Pos))))
		}
		m[t+".UnreadByte"] = func(c *callCtx) []callRes {
			p, r := c.reader(0)
			if r == nil {
				return c.havoc()
			}
			q := *r
			q.Pos = c.st.resolveLin(linAddK(r.Pos, 1, linConst(-1)))
			c.in.store(c.st, p, &q)
			return one(c.st, noErr)
		}
	}
	m["(*bufio.Reader).Peek"] = func(c *callCtx) []callRes {
		p, r := c.reader(0)
		n, ok := c.args[1].(*Num)
		if r == nil || !ok {
			return c.havoc()
		}
		return c.readN(p, r, n.L, func(st *State, segs []Seg, adv func()) []callRes {
			return one(st, tup(c.in.newSlice(st, segs, byteT), noErr))
		}, func(st *State) []callRes {
			segs := c.in.subAny(st, r.S, r.Pos, seqLen(r.S), byteT)
			return one(st, tup(c.in.newSlice(st, segs, byteT), eofErr))
		})
	}
	m["(*bytes.Buffer).Write"] = func(c *callCtx) []callRes {
		segs, ok := c.in.bytesOf(c.st, c.args[1])
		if !ok {
			return c.havoc()
		}
		return bufWrite(c, segs, func(n *Lin) Val { return tup(intLin(n), noErr) })
	}
	m["(*bytes.Buffer).WriteString"] = m["(*bytes.Buffer).Write"]
	m["(*strings.Builder).WriteString"] = m["(*bytes.Buffer).Write"]
	m["(*strings.Builder).Write"] = m["(*bytes.Buffer).Write"]
	m["(*bytes.Buffer).WriteByte"] = func(c *callCtx) []callRes {
		return bufWrite(c, []Seg{&SegElem{c.args[1]}}, func(n *Lin) Val { return noErr })
	}
	m["(*strings.Builder).WriteByte"] = m["(*bytes.Buffer).WriteByte"]
	m["(*strings.Builder).WriteRune"] = func(c *callCtx) []callRes {
		n, ok := c.args[1].(*Num)
		if ok {
			if v, ok := c.st.resolve(n).constVal(); ok {
				return bufWrite(c, []Seg{&SegLit{string(rune(v))}}, func(n *Lin) Val { return tup(intLin(n), noErr) })
			}
		}
		return c.havoc()
	}
	m["(*bytes.Buffer).Bytes"] = func(c *callCtx) []callRes {
		_, b := c.buf(0)
		if b == nil {
			return c.havoc()
		}
		if len(b.S) == 0 {
			s := c.in.newSlice(c.st, nil, byteT)
			s.NilPred = c.in.freshName("nilbuf")
			return one(c.st, s)
		}
		s := c.in.newSlice(c.st, strToElems(b.S), byteT)
		s.Cap = nil
		return one(c.st, s)
	}
	bstr := func(c *callCtx) []callRes {
		_, b := c.buf(0)
		if b == nil {
			return c.havoc()
		}
		return one(c.st, &StrV{c.in.canonHex(c.st, c.in.normSegs(c.st, litBytes(b.S)))})
	}
	m["(*bytes.Buffer).String"] = bstr
	m["(*strings.Builder).String"] = bstr
	blen := func(c *callCtx) []callRes {
		_, b := c.buf(0)
		if b == nil {
			return c.havoc()
		}
		return one(c.st, intLin(c.st.resolveLin(seqLen(b.S))))
	}
	m["(*bytes.Buffer).Len"] = blen
	m["(*strings.Builder).Len"] = blen
	m["(*bytes.Buffer).Reset"] = func(c *callCtx) []callRes {
		p, b := c.buf(0)
		if b == nil {
			return c.havoc()
		}
		c.in.store(c.st, p, &BufObj{})
		return one(c.st, tup())
	}
	m["(*bytes.Buffer).Grow"] = noop
	m["(*strings.Builder).Grow"] = noop
	m["bytes.Clone"] = func(c *callCtx) []callRes {
		s, ok := c.args[0].(*SliceV)
		if !ok {
			return c.havoc()
		}
		if s.Obj == 0 {
			return one(c.st, s)
		}
		n := c.in.newSlice(c.st, c.in.sliceSegs(c.st, s), s.Elem)
		n.NilPred = s.NilPred
		return one(c.st, n)
	}
	m["slices.Clone"] = m["bytes.Clone"]
	m["slices.Concat"] = func(c *callCtx) []callRes {
		vs, ok := c.variadic(0)
		if !ok {
			return c.havoc()
		}
		var segs []Seg
		var el types.Type = byteT
		for _, v := range vs {
			s, ok := v.(*SliceV)
			if !ok {
				return c.havoc()
			}
			if s.Elem != nil {
				el = s.Elem
			}
			segs = append(segs, c.in.sliceSegs(c.st, s)...)
		}
		return one(c.st, c.in.newSlice(c.st, segs, el))
	}
	m["bytes.Equal"] = func(c *callCtx) []callRes {
		a, ok1 := c.in.bytesOf(c.st, c.args[0])
		b, ok2 := c.in.bytesOf(c.st, c.args[1])
		if !ok1 || !ok2 {
			return c.havoc()
		}
		return one(c.st, &BoolV{c.in.strEqCond(c.st, &StrV{a}, &StrV{b})})
	}
	m["bytes.HasPrefix"] = func(c *callCtx) []callRes {
		a, ok1 := c.in.bytesOf(c.st, c.args[0])
		b, ok2 := c.in.bytesOf(c.st, c.args[1])
		if !ok1 || !ok2 {
			return c.havoc()
		}
		d := linSub(seqLen(a), seqLen(b))
		is := func(st *State) (callRes, bool) {
			h, ok := c.in.seqSub(st, a, linConst(0), seqLen(b))
			if !ok {
				return callRes{}, false
			}
			return callRes{st, &BoolV{c.in.strEqCond(st, &StrV{h}, &StrV{b})}}, true
		}
		if c.st.proveGE(d) {
			if r, ok := is(c.st); ok {
				return []callRes{r}
			}
			return c.havoc()
		}
		short, long := c.st.clone(), c.st.clone()
		short.assumeGE(linAddK(linScale(d, -1), 1, linConst(-1)))
		long.assumeGE(d)
		var out []callRes
		if !long.dead {
			r, ok := is(long)
			if !ok {
				return c.havoc()
			}
			out = append(out, r)
		}
		if !short.dead {
			out = append(out, callRes{short, boolConst(false)})
		}
		return out
	}
	m["slices.Equal"] = func(c *callCtx) []callRes {
		s1, ok1 := c.args[0].(*SliceV)
		s2, ok2 := c.args[1].(*SliceV)
		isB := func(s *SliceV) bool {
			if s.Elem == nil {
				return s.Obj == 0
			}
			b, ok := s.Elem.Underlying().(*types.Basic)
			return ok && b.Kind() == types.Uint8
		}
		if ok1 && ok2 && isB(s1) && isB(s2) {
			return m["bytes.Equal"](c)
		}
		if c.fn.Blocks != nil {
			return c.in.inline(c)
		}
		return c.havoc()
	}
	// io
	m["io.ReadFull"] = func(c *callCtx) []callRes {
		d, ok := c.args[1].(*SliceV)
		p, r := c.reader(0)
		if !ok {
			return c.havoc()
		}
		if r == nil {
			if o, isO := c.args[0].(*OpaqueV); isO && d.Obj != 0 {
				// unknown reader: full, EOF (nothing read) or unexpected EOF
				s1, s2 := c.st.clone(), c.st.clone()
				root := newSeqAtom(c.in.freshName("iter.read:"+o.Key), byteT)
				c.in.overwrite(c.st, d.Obj, d.Off, []Seg{&SegSpan{root, linConst(0), d.lenLin()}}, d.lenLin(), d.Elem)
				return []callRes{{c.st, tup(intLin(d.lenLin()), noErr)}, {s1, tup(intConst(0), eofErr)}, {s2, tup(intConst(0), unexpEOF)}}
			}
			return c.havoc()
		}
		n := d.lenLin()
		return c.readN(p, r, n, func(st *State, segs []Seg, adv func()) []callRes {
			adv()
			if d.Obj != 0 {
				c.in.overwrite(st, d.Obj, d.Off, segs, n, d.Elem)
			}
			return one(st, tup(intLin(n), noErr))
		}, func(st *State) []callRes {
			rem := linSub(seqLen(r.S), r.Pos)
			c2 := *c
			c2.st = st
			return c2.branch(geCond(linAddK(rem, 1, linConst(-1))), func(st *State) []callRes {
				q := *r
				q.Pos = seqLen(r.S)
				c.in.store(st, p, &q)
				return one(st, tup(intLin(rem), unexpEOF))
			}, func(st *State) []callRes {
				return one(st, tup(intConst(0), eofErr))
			})
		})
	}
	ra := func(c *callCtx) []callRes {
		if p, r := c.reader(0); r != nil {
			segs := c.in.subAny(c.st, r.S, r.Pos, seqLen(r.S), byteT)
			q := *r
			q.Pos = seqLen(r.S)
			c.in.store(c.st, p, &q)
			return one(c.st, tup(c.in.newSlice(c.st, segs, byteT), noErr))
		}
		s := c.st.clone()
		root := newSeqAtom("readall:"+vkey(c.args[0]), byteT)
		return []callRes{{c.st, tup(c.in.newSlice(c.st, []Seg{&SegSpan{root, linConst(0), root.Len.L}}, byteT), noErr)}, {s, tup(&SliceV{Elem: byteT, Off: linConst(0), Len: linConst(0), Cap: linConst(0)}, c.in.newErr("read"))}}
	}
	m["io.ReadAll"] = ra
	m["io/ioutil.ReadAll"] = ra
	m["encoding/binary.Write"] = binaryWrite
	// fmt, errors
	m["fmt.Errorf"] = func(c *callCtx) []callRes {
		if l, ok := c.str(0); ok {
			if f, ok := l.lit(); ok && strings.Contains(f, "%w") {
				if vs, ok := c.variadic(1); ok {
					for _, v := range vs {
						if o, ok := v.(*OpaqueV); ok && o.Distinct {
							return one(c.st, &OpaqueV{Key: c.in.freshName("err:wrap:" + o.Key), T: errorT, NonNil: true, Args: []Val{o}})
						}
					}
				}
			}
		}
		what := "Errorf"
		if l, ok := c.str(0); ok {
			what += ":" + segsString(l.S)
			if vs, ok := c.variadic(1); ok {
				for _, v := range vs {
					what += " " + vstr(c.in.resolveVal(c.st, v))
				}
			}
			if len(what) > 160 {
				what = what[:160]
			}
		}
		e := c.in.newErr(what)
		if o, ok := e.(*OpaqueV); ok {
			if l, ok := c.str(0); ok {
				if f, ok := l.lit(); ok {
					o.Text = f
					o.TextArgs, _ = c.variadic(1)
				}
			}
		}
		return one(c.st, e)
	}
	m["errors.New"] = func(c *callCtx) []callRes { return one(c.st, c.in.newErr("New")) }
	m["errors.Is"] = func(c *callCtx) []callRes {
		e := c.in.eqCond(c.st, c.args[0], c.args[1])
		if c.st.evalCond(e) == 0 {
			if o, ok := c.args[0].(*OpaqueV); ok {
				for _, a := range o.Args {
					if vkey(a) == vkey(c.args[1]) {
						return one(c.st, boolConst(true))
					}
				}
			}
		}
		return one(c.st, &BoolV{e})
	}
	m["fmt.Sprintf"] = func(c *callCtx) []callRes {
		f, ok := c.str(0)
		if !ok {
			return c.havoc()
		}
		lit, ok := f.lit()
		args, ok2 := c.variadic(1)
		if !ok || !ok2 {
			return c.havoc()
		}
		var out []callRes
		for _, r := range c.sprintf(lit, args) {
			out = append(out, callRes{r.st, r.s})
		}
		return out
	}
	m["fmt.Sprint"] = func(c *callCtx) []callRes {
		args, ok := c.variadic(0)
		if !ok || len(args) != 1 {
			return c.havoc()
		}
		var out []callRes
		for _, r := range c.fmtArg(c.st, "%v", args[0]) {
			out = append(out, callRes{r.st, r.s})
		}
		return out
	}
	for _, n := range []string{"fmt.Printf", "fmt.Println", "fmt.Print", "fmt.Fprintf", "fmt.Fprintln", "fmt.Fprint"} {
		m[n] = func(c *callCtx) []callRes {
			return one(c.st, tup(intConst(0), noErr))
		}
	}
	for _, n := range []string{"log.Printf", "log.Println", "log.Print", "log.SetFlags", "log.SetPrefix", "log.SetOutput"} {
		m[n] = noop
	}
	// strconv
	m["strconv.ParseUint"] = func(c *callCtx) []callRes { return parseNum(c, false) }
	m["strconv.ParseInt"] = func(c *callCtx) []callRes { return parseNum(c, true) }
	m["strconv.Atoi"] = func(c *callCtx) []callRes {
		c.args = []Val{c.args[0], intConst(10), intConst(0)}
		return parseNum(c, true)
	}
	itoa := func(c *callCtx) []callRes {
		n, ok := c.args[0].(*Num)
		if !ok {
			return c.havoc()
		}
		if len(c.args) > 1 {
			if b, ok := c.args[1].(*Num); !ok {
				return c.havoc()
			} else if v, ok := b.constVal(); !ok || v != 10 {
				return c.havoc()
			}
		}
		n = c.st.resolve(n)
		if v, ok := n.constVal(); ok {
			return one(c.st, strLit(strconv.FormatInt(v, 10)))
		}
		return one(c.st, wholeStr(fmtRoot(c.st, "dec", n)))
	}
	m["strconv.Itoa"] = itoa
	m["strconv.FormatInt"] = itoa
	m["strconv.FormatUint"] = itoa
	m["strconv.Quote"] = func(c *callCtx) []callRes {
		if l, ok := c.lits(1); ok {
			return one(c.st, strLit(strconv.Quote(l[0])))
		}
		return c.strApp()
	}
	m["encoding/hex.DecodeString"] = func(c *callCtx) []callRes {
		s, ok := c.str(0)
		if !ok {
			return c.havoc()
		}
		empty := &SliceV{Elem: byteT, Off: linConst(0), Len: linConst(0), Cap: linConst(0)}
		if b, ok := c.in.hexBytes(c.st, s.S); ok {
			return one(c.st, tup(c.in.newSlice(c.st, b, byteT), noErr))
		}
		if _, ok := s.lit(); ok {
			return one(c.st, tup(empty, c.in.newErr("hex")))
		}
		s2 := c.st.clone()
		r := internSeq("hexdec:"+segsKey(s.S), byteT, nil)
		// two characters per byte
		c.st.assumeGE(linAddK(seqLen(s.S), -2, r.Len.L))
		return []callRes{{c.st, tup(c.in.newSlice(c.st, wholeStr(r).S, byteT), noErr)}, {s2, tup(empty, c.in.newErr("hex"))}}
	}
	// strings
	m["strings.TrimSpace"] = func(c *callCtx) []callRes {
		s, ok := c.str(0)
		if !ok {
			return c.havoc()
		}
		if l, ok := s.lit(); ok {
			return one(c.st, strLit(strings.TrimSpace(l)))
		}
		if r, ok := c.in.trimSpace(c.st, s.S); ok {
			return one(c.st, &StrV{r})
		}
		res := c.strApp()
		for _, g := range mergeLits(s.S) {
			l, isl := g.(*SegLit)
			if isl && strings.TrimSpace(l.S) != "" {
				a := res[0].val.(*StrV).S[0].(*SegSpan).R.Len.L.T[0].A
				c.st.setRange(a, 1, posInf)
				break
			}
		}
		return res
	}
	m["strings.Trim"] = func(c *callCtx) []callRes {
		if l, ok := c.lits(2); ok {
			return one(c.st, strLit(strings.Trim(l[0], l[1])))
		}
		if s, ok := c.str(1); ok {
			if l, ok := s.lit(); ok && l == " " {
				s0, _ := c.str(0)
				if r, ok := c.in.trimSpace(c.st, s0.S); ok {
					return one(c.st, &StrV{r})
				}
			}
		}
		return c.strApp()
	}
	m["strings.TrimPrefix"] = strModel2(strings.TrimPrefix)
	m["strings.TrimSuffix"] = strModel2(strings.TrimSuffix)
	m["strings.TrimLeft"] = strModel2(strings.TrimLeft)
	m["strings.TrimRight"] = strModel2(strings.TrimRight)
	m["strings.ToLower"] = func(c *callCtx) []callRes {
		s, ok := c.str(0)
		if !ok {
			return c.havoc()
		}
		var out []Seg
		for _, g := range s.S {
			switch x := g.(type) {
			case *SegLit:
				out = append(out, &SegLit{strings.ToLower(x.S)})
			case *SegSpan:
				if x.R.Fmt != nil && x.R.Fmt.Kind == "dec" {
					out = append(out, x)
					continue
				}
				return c.strApp()
			default:
				return c.strApp()
			}
		}
		return one(c.st, &StrV{out})
	}
	m["strings.ToUpper"] = func(c *callCtx) []callRes {
		if l, ok := c.lits(1); ok {
			return one(c.st, strLit(strings.ToUpper(l[0])))
		}
		return c.strApp()
	}
	m["strings.EqualFold"] = strPred2(strings.EqualFold)
	m["strings.HasPrefix"] = func(c *callCtx) []callRes {
		if l, ok := c.lits(2); ok {
			return one(c.st, boolConst(strings.HasPrefix(l[0], l[1])))
		}
		if s, ok := c.str(0); ok && len(s.S) > 0 {
			if p, ok := c.str(1); ok {
				if pl, ok := p.lit(); ok {
					if g, ok := s.S[0].(*SegLit); ok {
						if len(g.S) >= len(pl) || !strings.HasPrefix(pl, g.S) {
							return one(c.st, boolConst(strings.HasPrefix(g.S, pl)))
						}
					}
					if g, ok := c.in.matchPlaces(c.st, regexp.MustCompile("^"+regexp.QuoteMeta(pl)), s.S); ok {
						return one(c.st, boolConst(g != nil))
					}
				}
			}
		}
		return c.boolApp()
	}
	m["strings.HasSuffix"] = func(c *callCtx) []callRes {
		if l, ok := c.lits(2); ok {
			return one(c.st, boolConst(strings.HasSuffix(l[0], l[1])))
		}
		if s, ok := c.str(0); ok {
			if p, ok := c.str(1); ok {
				if pl, ok := p.lit(); ok {
					if g, ok := c.in.matchPlaces(c.st, regexp.MustCompile(regexp.QuoteMeta(pl)+"$"), s.S); ok {
						return one(c.st, boolConst(g != nil))
					}
				}
			}
		}
		return c.boolApp()
	}
	m["strings.Contains"] = func(c *callCtx) []callRes {
		if l, ok := c.lits(2); ok {
			return one(c.st, boolConst(strings.Contains(l[0], l[1])))
		}
		s, ok1 := c.str(0)
		p, ok2 := c.str(1)
		if ok1 && ok2 {
			if pl, ok := p.lit(); ok {
				all := true
				for _, g := range s.S {
					switch x := g.(type) {
					case *SegLit:
						if strings.Contains(x.S, pl) {
							return one(c.st, boolConst(true))
						}
					case *SegSpan:
						if x.R.Fmt == nil || !asciiFmt(x.R.Fmt) {
							all = false
						}
					case *SegComp:
						all = false
					default:
						all = false
					}
				}
				if all && !strings.ContainsAny(pl, "0123456789ABCDEF ") {
					return one(c.st, boolConst(false))
				}
				if g, ok := c.in.matchPlaces(c.st, regexp.MustCompile(regexp.QuoteMeta(pl)), s.S); ok {
					return one(c.st, boolConst(g != nil))
				}
			}
		}
		return c.boolApp()
	}
	m["strings.Repeat"] = func(c *callCtx) []callRes {
		s, ok := c.str(0)
		n, ok2 := c.args[1].(*Num)
		if !ok || !ok2 {
			return c.havoc()
		}
		if !c.in.need(c.st, c.instr, "repeat", geCond(n.L), "strings.Repeat with a negative count "+vstr(n)) {
			return nil
		}
		n = c.st.resolve(n)
		l, isl := s.lit()
		if v, ok := n.constVal(); ok && isl && v < 10000 {
			return one(c.st, strLit(strings.Repeat(l, int(v))))
		}
		r := internSeq("repeat:"+segsKey(s.S)+":"+n.L.key(), byteT, func(r *SeqAtom) {
			r.Fmt = &FmtDesc{Kind: "repeat", Segs: s.S, N: n}
			r.Name = "repeat(" + segsString(s.S) + "," + n.String() + ")"
		})
		if lo, hi := c.st.rangeLin(n.L); isl && hi < 1<<40 {
			c.st.setRange(r.Len.L.T[0].A, lo*int64(len(l)), hi*int64(len(l)))
		}
		return one(c.st, wholeStr(r))
	}
	m["strings.Join"] = func(c *callCtx) []callRes {
		sl, ok := c.args[0].(*SliceV)
		sep, ok2 := c.str(1)
		if !ok || !ok2 {
			return c.havoc()
		}
		var out []Seg
		list := c.in.normSegs(c.st, c.in.sliceSegs(c.st, sl))
		if len(list) == 1 {
			if x, ok := list[0].(*SegComp); ok && !x.Str && len(x.El) == 1 && c.in.segsLit(sep.S) == " " {
				if e, ok := x.El[0].(*StrV); ok {
					if b, ok := c.in.hexBytes(c.st, e.S); ok && len(b) == 1 {
						y := &SegComp{K: x.K, El: []Val{b[0].(*SegElem).V}, Off: x.Off, N: x.N, Elem: byteT}
						if q := c.in.compAsSpan(c.st, y); q != nil {
							return one(c.st, &StrV{c.in.hexList(c.st, []Seg{q})})
						}
						return one(c.st, &StrV{c.in.hexList(c.st, []Seg{y})})
					}
				}
			}
		}
		for i, g := range list {
			e, ok := g.(*SegElem)
			if !ok {
				return c.strApp()
			}
			x, ok := e.V.(*StrV)
			if !ok {
				return c.strApp()
			}
			if i > 0 {
				out = append(out, sep.S...)
			}
			out = append(out, x.S...)
		}
		return one(c.st, &StrV{c.in.normSegs(c.st, out)})
	}
	m["strings.ReplaceAll"] = func(c *callCtx) []callRes {
		if l, ok := c.lits(3); ok {
			return one(c.st, strLit(strings.ReplaceAll(l[0], l[1], l[2])))
		}
		if s, ok := c.str(0); ok {
			if a, ok := c.lits3(1, 2); ok && a[0] == " " && a[1] == "" {
				if r, ok := c.in.stripSpace(c.st, s.S); ok {
					return one(c.st, &StrV{r})
				}
			}
		}
		return c.strApp()
	}
	m["strings.Fields"] = func(c *callCtx) []callRes { return c.havoc() }
	// reflect, math, sort
	m["reflect.TypeOf"] = func(c *callCtx) []callRes {
		t, _ := dyn(c.args[0])
		if t != nil {
			return one(c.st, &OpaqueV{Key: "type:" + t.String(), T: c.sig.Results().At(0).Type(), NonNil: true, Distinct: true})
		}
		if _, ok := c.args[0].(*NilIface); ok {
			return one(c.st, &NilIface{})
		}
		return c.havoc()
	}
	for _, f := range []string{"math.Round", "math.Floor", "math.Ceil", "math.Trunc", "math.Log2", "math.Abs"} {
		m[f] = func(c *callCtx) []callRes {
			return one(c.st, &OpaqueV{Key: c.fn.String() + "(" + vkey(c.args[0]) + ")", T: c.sig.Results().At(0).Type(), NonNil: true, Args: c.args})
		}
	}
	srt := func(c *callCtx) []callRes {
		_, v := dyn(c.args[0])
		if s, ok := v.(*SliceV); ok && s.Obj != 0 {
			if c.sortKnown(s) {
				return one(c.st, tup())
			}
			r := newSeqAtom(c.in.freshName("sorted"), s.Elem)
			c.in.overwrite(c.st, s.Obj, s.Off, []Seg{&SegSpan{r, linConst(0), s.Len}}, s.Len, s.Elem)
		}
		return one(c.st, tup())
	}
	for n, f := range map[string]func(a, b time.Duration) time.Duration{"Round": time.Duration.Round, "Truncate": time.Duration.Truncate} {
		m["(time.Duration)."+n] = func(c *callCtx) []callRes {
			a, ok1 := c.args[0].(*Num)
			b, ok2 := c.args[1].(*Num)
			if ok1 && ok2 {
				x, ok1 := c.st.resolve(a).constVal()
				y, ok2 := c.st.resolve(b).constVal()
				if ok1 && ok2 {
					return one(c.st, intConst(int64(f(time.Duration(x), time.Duration(y)))))
				}
			}
			return c.havoc()
		}
	}
	for _, n := range []string{"Seconds", "Minutes", "Hours"} {
		m["(time.Duration)."+n] = func(c *callCtx) []callRes {
			return one(c.st, &OpaqueV{Key: c.fn.String() + "(" + vkey(c.in.resolveVal(c.st, c.args[0])) + ")", T: c.sig.Results().At(0).Type(), NonNil: true, Args: c.args})
		}
	}
	m["sort.SliceStable"] = srt
	m["sort.Slice"] = srt
	m["slices.Sort"] = srt
	m["slices.SortFunc"] = srt
	m["slices.SortStableFunc"] = srt
	m["unicode/utf8.RuneCountInString"] = func(c *callCtx) []callRes {
		s, ok := c.str(0)
		if !ok {
			return c.havoc()
		}
		return one(c.st, intLin(c.st.resolveLin(seqLen(c.in.strToRunes(c.st, s.S)))))
	}
	// regexp
	m["regexp.MustCompile"] = func(c *callCtx) []callRes {
		l, ok := c.lits(1)
		if !ok {
			return c.havoc()
		}
		if _, err := regexp.Compile(l[0]); err != nil {
			c.in.oblige(c.st, c.instr, "regexp", false, "invalid regular expression")
			return c.in.kill(c.st)
		}
		return one(c.st, &OpaqueV{Key: "re:" + l[0], T: c.sig.Results().At(0).Type(), NonNil: true, Distinct: true, Args: []Val{strLit(l[0])}})
	}
	m["(*regexp.Regexp).FindStringSubmatch"] = findSubmatch
	m["(*regexp.Regexp).FindString"] = func(c *callCtx) []callRes {
		if re := c.re(0); re != nil {
			if s, ok := c.str(1); ok {
				if g, ok := c.in.matchStructured(c.st, re, s.S); ok {
					if g == nil {
						return one(c.st, strLit(""))
					}
					return one(c.st, g[0])
				}
			}
		}
		return c.strApp()
	}
	m["(*regexp.Regexp).MatchString"] = func(c *callCtx) []callRes {
		re := c.re(0)
		s, ok := c.str(1)
		if re == nil || !ok {
			return c.havoc()
		}
		if l, ok := s.lit(); ok {
			return one(c.st, boolConst(re.MatchString(l)))
		}
		if g, ok := c.in.matchStructured(c.st, re, s.S); ok {
			return one(c.st, boolConst(g != nil))
		}
		return c.boolApp()
	}
	m["(*regexp.Regexp).ReplaceAllString"] = func(c *callCtx) []callRes {
		re := c.re(0)
		s, ok := c.str(1)
		p, ok2 := c.str(2)
		if re == nil || !ok || !ok2 {
			return c.havoc()
		}
		l, ok := s.lit()
		pl, ok2 := p.lit()
		if ok && ok2 {
			return one(c.st, strLit(re.ReplaceAllString(l, pl)))
		}
		if ok2 && pl == "" && (re.String() == `\s+` || re.String() == `\s` || re.String() == `\s*` || re.String() == ` +`) {
			if r, ok := c.in.stripSpace(c.st, s.S); ok {
				return one(c.st, &StrV{r})
			}
		}
		return c.strApp()
	}
}

func (c *callCtx) lits3(i, j int) ([]string, bool) {
	a, ok1 := c.str(i)
	b, ok2 := c.str(j)
	if !ok1 || !ok2 {
		return nil, false
	}
	x, ok1 := a.lit()
	y, ok2 := b.lit()
	return []string{x, y}, ok1 && ok2
}

func (c *callCtx) re(i int) *regexp.Regexp {
	o, ok := c.args[i].(*OpaqueV)
	if !ok || len(o.Args) != 1 {
		return nil
	}
	s, ok := o.Args[0].(*StrV)
	if !ok {
		return nil
	}
	l, ok := s.lit()
	if !ok {
		return nil
	}
	re, err := regexp.Compile(l)
	if err != nil {
		return nil
	}
	return re
}

func (in *Interp) strSlice(st *State, v []*StrV) *SliceV {
	var segs []Seg
	for _, s := range v {
		segs = append(segs, &SegElem{s})
	}
	return in.newSlice(st, segs, stringT)
}

func findSubmatch(c *callCtx) []callRes {
	re := c.re(0)
	s, ok := c.str(1)
	if re == nil || !ok {
		return c.havoc()
	}
	nilS := &SliceV{Elem: stringT, Off: linConst(0), Len: linConst(0), Cap: linConst(0)}
	if l, ok := s.lit(); ok {
		g := re.FindStringSubmatch(l)
		if g == nil {
			return one(c.st, nilS)
		}
		var v []*StrV
		for _, x := range g {
			v = append(v, strLit(x))
		}
		return one(c.st, c.in.strSlice(c.st, v))
	}
	if g, ok := c.in.matchStructured(c.st, re, s.S); ok {
		if g == nil {
			return one(c.st, nilS)
		}
		return one(c.st, c.in.strSlice(c.st, g))
	}
	// arbitrary text: no match, or a match with arbitrary groups of the right shape
	p := predV("match:" + re.String() + ":" + segsKey(s.S)).C
	mayFail[p.P] = !re.MatchString("") && !re.MatchString("x") && len(s.S) == 1
	return c.branch(p, func(st *State) []callRes {
		lists := [][]*StrV{nil}
		for i := 0; i <= re.NumSubexp(); i++ {
			vals := []*StrV{}
			for _, x := range groupStrings(re.String(), i) {
				vals = append(vals, strLit(x))
			}
			if len(vals) == 0 || len(vals)*len(lists) > 16 {
				r := internSeq(fmt.Sprintf("grp:%s:%s:%d", re.String(), segsKey(s.S), i), byteT, func(r *SeqAtom) {
					r.Name = fmt.Sprintf("group%d", i)
				})
				vals = []*StrV{wholeStr(r)}
			}
			var nx [][]*StrV
			for _, l := range lists {
				for _, v := range vals {
					nx = append(nx, append(append([]*StrV{}, l...), v))
				}
			}
			lists = nx
		}
		var out []callRes
		for i, l := range lists {
			s2 := st
			if i+1 < len(lists) {
				s2 = st.clone()
			}
			if len(lists) > 1 {
				s2.assume(predV(fmt.Sprintf("groups:%d:%s:%s", i, re.String(), segsKey(s.S))).C, true)
			}
			out = append(out, callRes{s2, c.in.strSlice(s2, l)})
		}
		return out
	}, func(st *State) []callRes { return one(st, nilS) })
}

// mayFail: matches that plainly fail on some texts
var mayFail = map[string]bool{}

// groupStrings: what a group can match, if that is a short list of strings
func groupStrings(re string, n int) []string {
	x, err := syntax.Parse(re, syntax.Perl)
	if err != nil || n == 0 {
		return nil
	}
	top := []*syntax.Regexp{x}
	if x.Op == syntax.OpConcat {
		top = x.Sub
	}
	for _, y := range top {
		if y.Op == syntax.OpCapture && y.Cap == n && y.Flags&syntax.FoldCase == 0 {
			v, ok := finite(y.Sub[0])
			if !ok {
				return nil
			}
			return v
		}
	}
	return nil
}

func finite(x *syntax.Regexp) ([]string, bool) {
	switch x.Op {
	case syntax.OpLiteral:
		return []string{string(x.Rune)}, x.Flags&syntax.FoldCase == 0
	case syntax.OpCharClass:
		var v []string
		for i := 0; i+1 < len(x.Rune); i += 2 {
			for r := x.Rune[i]; r <= x.Rune[i+1]; r++ {
				if v = append(v, string(r)); len(v) > 8 {
					return nil, false
				}
			}
		}
		return v, true
	case syntax.OpCapture:
		return finite(x.Sub[0])
	case syntax.OpAlternate:
		var v []string
		for _, y := range x.Sub {
			w, ok := finite(y)
			if !ok {
				return nil, false
			}
			v = append(v, w...)
		}
		return v, len(v) <= 8
	}
	return nil, false
}

var _ = ssa.BuilderMode(0)

// segsLit is the text of a literal string, or ""
func (in *Interp) segsLit(segs []Seg) string {
	t := ""
	for _, g := range segs {
		l, ok := g.(*SegLit)
		if !ok {
			return ""
		}
		t += l.S
	}
	return t
}

// litBytes writes known ASCII bytes as literal text
func litBytes(segs []Seg) []Seg {
	out := make([]Seg, len(segs))
	for i, g := range segs {
		out[i] = g
		if e, ok := g.(*SegElem); ok {
			if n, ok := e.V.(*Num); ok {
				if c, ok := n.constVal(); ok && c >= 0 && c < 0x80 {
					out[i] = &SegLit{string(rune(c))}
				}
			}
		}
	}
	return out
}

// sortKnown sorts a slice of known length when every comparison is decided
func (c *callCtx) sortKnown(s *SliceV) bool {
	segs := c.in.normSegs(c.st, c.in.sliceSegs(c.st, s))
	if len(segs) > 40 {
		return false
	}
	vs := make([]Val, len(segs))
	for i, g := range segs {
		e, ok := g.(*SegElem)
		if !ok {
			return false
		}
		vs[i] = e.V
	}
	put := func(st *State, vs []Val) {
		l := make([]Seg, len(vs))
		for i, v := range vs {
			l[i] = &SegElem{v}
		}
		c.in.overwrite(st, s.Obj, s.Off, l, s.Len, s.Elem)
	}
	byIndex := strings.HasPrefix(c.fn.String(), "sort.")
	less := func(vs []Val, i, j int) (bool, bool) {
		if len(c.args) == 1 {
			a, ok1 := vs[i].(*Num)
			b, ok2 := vs[j].(*Num)
			if !ok1 || !ok2 {
				return false, false
			}
			if c.st.proveGE(linAddK(linSub(b.L, a.L), 1, linConst(-1))) {
				return true, true
			}
			return false, c.st.proveGE(linSub(a.L, b.L))
		}
		st := c.st.clone()
		args := []Val{vs[i], vs[j]}
		if byIndex {
			put(st, vs)
			args = []Val{intConst(int64(i)), intConst(int64(j))}
		}
		f, ok := c.args[1].(*FuncV)
		if !ok || f.F == nil {
			return false, false
		}
		rs := c.in.callFn(st, c.instr, f.F, args, f.B)
		if len(rs) != 1 {
			return false, false
		}
		v := rs[0].val
		if t, ok := v.(*TupleV); ok && len(t.V) == 1 {
			v = t.V[0]
		}
		switch x := v.(type) {
		case *BoolV:
			switch rs[0].st.evalCond(x.C) {
			case 0:
				return false, true
			case 1:
				return true, true
			}
		case *Num:
			lo, hi := rs[0].st.rangeLin(x.L)
			if hi < 0 {
				return true, true
			}
			return false, lo >= 0
		}
		return false, false
	}
	for i := 1; i < len(vs); i++ {
		for j := i; j > 0; j-- {
			l, ok := less(vs, j, j-1)
			if !ok {
				return false
			}
			if !l {
				break
			}
			vs[j], vs[j-1] = vs[j-1], vs[j]
		}
	}
	put(c.st, vs)
	return true
}
