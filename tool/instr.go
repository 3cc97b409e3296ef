package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (in *Interp) kill(st *State) []callRes {
	st.dead = true
	return nil
}

// deref turns a pointer value into an address, with the nil obligation
func (in *Interp) deref(st *State, instr ssa.Instruction, v Val, t types.Type) *PtrV {
	switch x := v.(type) {
	case *PtrV:
		if x.Obj == 0 {
			in.oblige(st, instr, "nil", false, "nil pointer dereference")
			st.dead = true
			return nil
		}
		if x.NilPred != "" {
			if p, ok := st.preds[x.NilPred]; ok {
				if p {
					in.oblige(st, instr, "nil", false, "nil pointer dereference")
					st.dead = true
					return nil
				}
			} else {
				in.oblige(st, instr, "nil", false, "pointer may be nil: "+x.NilPred)
				st.preds[x.NilPred] = false
			}
		}
		in.oblige(st, instr, "nil", true, "")
		return x
	case *OpaqueV:
		if !x.NonNil {
			if p, ok := st.preds["nil:"+x.Key]; !ok || p {
				in.oblige(st, instr, "nil", false, "pointer may be nil: "+x.Key)
				st.preds["nil:"+x.Key] = false
			}
		}
		key := "deref:" + x.Key
		if p, ok := st.sym[key]; ok {
			return p.(*PtrV)
		}
		var el types.Type
		if t != nil {
			if pt, ok := t.Underlying().(*types.Pointer); ok {
				el = pt.Elem()
			}
		}
		if el == nil {
			el = types.Typ[types.Int]
		}
		id := st.alloc(nil)
		st.set(id, &lazyV{el, x.Key + ".*"})
		p := &PtrV{Obj: id}
		st.sym[key] = p
		return p
	case *NilV, *NilIface:
		in.oblige(st, instr, "nil", false, "nil pointer dereference")
		st.dead = true
		return nil
	}
	// unknown
	var el types.Type = types.Typ[types.Int]
	if t != nil {
		if pt, ok := t.Underlying().(*types.Pointer); ok {
			el = pt.Elem()
		}
	}
	id := st.alloc(nil)
	st.set(id, &lazyV{el, in.freshName("unk")})
	return &PtrV{Obj: id}
}

func extend(p *PtrV, e PathEl) *PtrV {
	path := append(append([]PathEl{}, p.Path...), e)
	return &PtrV{Obj: p.Obj, Path: path}
}

// need: obligation cond; the state continues under the assumption that it held
func (in *Interp) need(st *State, instr ssa.Instruction, kind string, c *Cond, detail string) bool {
	switch st.evalCond(c) {
	case 1:
		in.oblige(st, instr, kind, true, "")
		return true
	case 0:
		in.oblige(st, instr, kind, false, detail)
		st.dead = true
		return false
	}
	if in.bad = nil; in.quiet == 0 {
		in.bad = st.clone()
		in.bad.assume(c, false)
		if in.bad.dead {
			in.bad = nil
			in.oblige(st, instr, kind, true, "")
			return true
		}
	}
	in.oblige(st, instr, kind, false, detail)
	st.assume(c, true)
	return !st.dead
}

func geCond(l *Lin) *Cond { return &Cond{Kind: 'g', L: l} }

func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&(types.IsFloat|types.IsComplex) != 0
}
func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func (in *Interp) instr(it *item, ins ssa.Instruction) []callRes {
	st := it.st
	switch x := ins.(type) {
	case *ssa.Alloc:
		t := x.Type().Underlying().(*types.Pointer).Elem()
		id := st.alloc(nil)
		st.set(id, in.zero(st, t))
		return one(st, &PtrV{Obj: id})
	case *ssa.Store:
		p := in.deref(st, ins, in.val(it, x.Addr), x.Addr.Type())
		if p == nil {
			return nil
		}
		if in.onStore != nil {
			in.onStore(st, ins, p)
		}
		in.store(st, p, in.val(it, x.Val))
		return one(st, nil)
	case *ssa.UnOp:
		return in.unop(it, x)
	case *ssa.BinOp:
		return in.binop(it, x, x.Op, in.val(it, x.X), in.val(it, x.Y), x.X.Type(), x.Type())
	case *ssa.ChangeType, *ssa.ChangeInterface:
		var o ssa.Value
		if c, ok := ins.(*ssa.ChangeType); ok {
			o = c.X
		} else {
			o = ins.(*ssa.ChangeInterface).X
		}
		v := in.val(it, o)
		if s, ok := v.(*StructV); ok {
			v = &StructV{ins.(ssa.Value).Type(), s.F}
		}
		return one(st, v)
	case *ssa.Convert:
		return in.convert(it, x, in.val(it, x.X), x.X.Type(), x.Type())
	case *ssa.MultiConvert:
		return in.convert(it, x, in.val(it, x.X), x.X.Type(), x.Type())
	case *ssa.SliceToArrayPointer:
		return one(st, in.symVal(st, x.Type(), in.freshName("s2a")))
	case *ssa.MakeInterface:
		v := in.val(it, x.X)
		return one(st, &IfaceV{x.X.Type(), v})
	case *ssa.MakeClosure:
		f := &FuncV{F: x.Fn.(*ssa.Function)}
		for _, b := range x.Bindings {
			f.B = append(f.B, in.val(it, b))
		}
		return one(st, f)
	case *ssa.MakeMap:
		mt := x.Type().Underlying().(*types.Map)
		return one(st, &MapV{Obj: st.alloc(&MapObj{KT: mt.Key(), VT: mt.Elem()})})
	case *ssa.MakeChan:
		return one(st, &ChanV{st.alloc(&ChanObj{})})
	case *ssa.MakeSlice:
		n, ok := in.val(it, x.Len).(*Num)
		el := x.Type().Underlying().(*types.Slice).Elem()
		if !ok {
			return one(st, in.symVal(st, x.Type(), in.freshName("make")))
		}
		if !in.need(st, ins, "make", geCond(n.L), "make with a negative length "+vstr(n)) {
			return nil
		}
		c := n.L
		if cp, ok := in.val(it, x.Cap).(*Num); ok {
			if !in.need(st, ins, "make", geCond(linSub(cp.L, n.L)), "make with capacity less than length") {
				return nil
			}
			c = cp.L
		}
		l := st.resolveLin(n.L)
		c = st.resolveLin(c)
		segs := in.zeros(st, c, el)
		s := in.newSlice(st, segs, el)
		s.Len, s.Cap = l, c
		return one(st, s)
	case *ssa.Field:
		v := in.val(it, x.X)
		s, ok := v.(*StructV)
		if !ok || x.Field >= len(s.F) {
			return one(st, in.symVal(st, x.Type(), in.freshName("field")))
		}
		return one(st, in.coerce(st, s.F[x.Field], x.Type()))
	case *ssa.FieldAddr:
		p := in.deref(st, ins, in.val(it, x.X), x.X.Type())
		if p == nil {
			return nil
		}
		return one(st, extend(p, PathEl{F: x.Field}))
	case *ssa.Index:
		v := in.val(it, x.X)
		i, ok := in.val(it, x.Index).(*Num)
		if !ok {
			i = intLin(linAtom(newAtom(in.freshName("idx"), 64, true)))
		}
		var segs []Seg
		switch y := v.(type) {
		case *ArrayV:
			segs = y.S
		case *StrV:
			segs = y.S
		default:
			return one(st, in.symVal(st, x.Type(), in.freshName("index")))
		}
		if !in.bounds(st, ins, i.L, seqLen(segs)) {
			return nil
		}
		return in.indexValue(st, segs, i.L, x.Type())
	case *ssa.IndexAddr:
		v := in.val(it, x.X)
		i, ok := in.val(it, x.Index).(*Num)
		if !ok {
			i = intLin(linAtom(newAtom(in.freshName("idx"), 64, true)))
		}
		switch y := v.(type) {
		case *SliceV:
			if !in.bounds(st, ins, i.L, y.lenLin()) {
				return nil
			}
			return in.splitIndex(st, y.Obj, y.Off, i.L, &PtrV{Obj: y.Obj})
		case *PtrV, *OpaqueV:
			p := in.deref(st, ins, v, x.X.Type())
			if p == nil {
				return nil
			}
			at, ok := x.X.Type().Underlying().(*types.Pointer)
			if ok {
				if ar, ok := at.Elem().Underlying().(*types.Array); ok {
					if !in.bounds(st, ins, i.L, linConst(ar.Len())) {
						return nil
					}
				}
			}
			return one(st, extend(p, PathEl{F: -1, Idx: st.resolveLin(i.L)}))
		}
		return one(st, in.symVal(st, x.Type(), in.freshName("indexaddr")))
	case *ssa.Slice:
		return in.slice(it, x)
	case *ssa.Extract:
		t, ok := in.val(it, x.Tuple).(*TupleV)
		if !ok || x.Index >= len(t.V) {
			return one(st, in.symVal(st, x.Type(), in.freshName("extract")))
		}
		return one(st, t.V[x.Index])
	case *ssa.Lookup:
		return in.lookup(it, x)
	case *ssa.MapUpdate:
		m, ok := in.val(it, x.Map).(*MapV)
		if !ok {
			return one(st, nil)
		}
		if m.Obj == 0 {
			in.oblige(st, ins, "nilmap", false, "assignment to a nil map")
			return in.kill(st)
		}
		if m.NilPred != "" {
			if !in.need(st, ins, "nilmap", &Cond{Kind: 'p', P: m.NilPred, Neg: true}, "map may be nil") {
				return nil
			}
		}
		if in.onStore != nil {
			in.onStore(st, ins, &PtrV{Obj: m.Obj})
		}
		in.mapSet(st, m, in.val(it, x.Key), in.val(it, x.Value))
		return one(st, nil)
	case *ssa.TypeAssert:
		return in.typeAssert(it, x)
	case *ssa.Range:
		return one(st, in.mkRange(st, in.val(it, x.X), x.X.Type()))
	case *ssa.Next:
		return in.next(it, x)
	case *ssa.Call:
		f, args := in.callee(it, &x.Call)
		return in.callVal(st, ins, &x.Call, f, args)
	case *ssa.Go:
		f, args := in.callee(it, &x.Call)
		var out []callRes
		for _, r := range in.callVal(st, ins, &x.Call, f, args) {
			if !r.st.dead {
				out = append(out, callRes{r.st, nil})
			}
		}
		return out
	case *ssa.Send:
		if !in.send(st, ins, in.val(it, x.Chan), in.val(it, x.X)) {
			return in.kill(st)
		}
		return one(st, nil)
	case *ssa.Select:
		return in.selectCh(it, x)
	}
	in.unmod[fmt.Sprintf("%T", ins)]++
	if v, ok := ins.(ssa.Value); ok {
		return one(st, in.symVal(st, v.Type(), in.freshName("unk")))
	}
	return one(st, nil)
}

func (in *Interp) zeros(st *State, n *Lin, el types.Type) []Seg {
	n = st.resolveLin(n)
	if n.isConst() && n.C <= 4096 {
		var segs []Seg
		for i := int64(0); i < n.C; i++ {
			segs = append(segs, &SegElem{in.zero(st, el)})
		}
		return segs
	}
	k := internAtom("zk", 64, true, nil)
	return []Seg{&SegComp{K: k, El: []Val{in.zero(st, el)}, Off: linConst(0), N: n, Elem: el}}
}

func (in *Interp) bounds(st *State, ins ssa.Instruction, i, n *Lin) bool {
	if !in.need(st, ins, "index", geCond(i), "index may be negative: "+i.String()) {
		return false
	}
	return in.need(st, ins, "index", geCond(linAddK(linSub(n, i), 1, linConst(-1))), fmt.Sprintf("index %v may be out of range of length %v", st.resolveLin(i), st.resolveLin(n)))
}

// splitIndex: address of an element of a backing array; forks over the positions of a small table when the index is not known
func (in *Interp) splitIndex(st *State, obj int, off, i *Lin, p *PtrV) []callRes {
	idx := st.resolveLin(linAdd(off, i))
	return one(st, extend(p, PathEl{F: -1, Idx: idx}))
}

func (in *Interp) tableLen(segs []Seg) int {
	n := 0
	for _, g := range segs {
		switch x := g.(type) {
		case *SegElem:
			n++
		case *SegLit:
			n += len(x.S)
		default:
			return -1
		}
	}
	return n
}

// indexValue: element of a value sequence, forking over small constant tables
func (in *Interp) indexValue(st *State, segs []Seg, i *Lin, t types.Type) []callRes {
	i = st.resolveLin(i)
	if v, ok := in.seqIndexAt(st, segs, i); ok {
		return one(st, in.coerce(st, v, t))
	}
	if n := in.tableLen(segs); n > 0 && n <= 16 {
		var out []callRes
		for k := 0; k < n; k++ {
			c := &Cond{Kind: 'e', L: linAddK(i, 1, linConst(int64(-k)))}
			if st.evalCond(c) == 0 {
				continue
			}
			s := st.clone()
			s.assume(c, true)
			if s.dead {
				continue
			}
			if v, ok := in.seqIndexAt(s, segs, linConst(int64(k))); ok {
				out = append(out, callRes{s, in.coerce(s, v, t)})
			}
		}
		if len(out) > 0 {
			return out
		}
	}
	// deterministic selection from a table
	key := "sel:" + segsKey(segs) + "@" + i.key()
	if isString(t) {
		r := internSeq(key, byteT, func(r *SeqAtom) {
			r.Name = "table[" + i.String() + "]"
			r.Fmt = &FmtDesc{Kind: "sel", N: intLin(i), Segs: segs}
		})
		return one(st, wholeStr(r))
	}
	if w, s, ok := numType(t); ok && in.tableLen(segs) > 0 {
		var tab []int64
		for j := 0; j < in.tableLen(segs); j++ {
			v, ok := in.seqIndexAt(st, segs, linConst(int64(j)))
			n, isn := v.(*Num)
			if !ok || !isn {
				tab = nil
				break
			}
			c, isc := n.constVal()
			if !isc {
				tab = nil
				break
			}
			tab = append(tab, c)
		}
		if tab != nil {
			return one(st, selNum(st, tab, intLin(i), w, s))
		}
	}
	if v, ok := st.sym[key]; ok {
		return one(st, v)
	}
	v := in.symVal(st, t, in.freshName("elem"))
	st.sym[key] = v
	return one(st, v)
}

func (in *Interp) unop(it *item, x *ssa.UnOp) []callRes {
	st := it.st
	v := in.val(it, x.X)
	switch x.Op {
	case token.MUL:
		p := in.deref(st, x, v, x.X.Type())
		if p == nil {
			return nil
		}
		if len(p.Path) > 0 && p.Path[len(p.Path)-1].Idx != nil {
			q := &PtrV{Obj: p.Obj, Path: p.Path[:len(p.Path)-1]}
			arr := in.walk(st, in.object(st, q.Obj), q.Path)
			switch a := arr.(type) {
			case *SeqV:
				return in.indexValue(st, a.S, p.Path[len(p.Path)-1].Idx, x.Type())
			case *ArrayV:
				return in.indexValue(st, a.S, p.Path[len(p.Path)-1].Idx, x.Type())
			}
		}
		r := in.load(st, p, x.Type())
		if r == nil {
			r = in.symVal(st, x.Type(), in.freshName("load"))
		}
		return one(st, r)
	case token.NOT:
		return one(st, &BoolV{condNot(in.boolOf(st, v))})
	case token.SUB:
		if n, ok := v.(*Num); ok {
			return one(st, numBin(st, "-", numConst(0, n.W, n.Signed), n))
		}
		return one(st, &OpaqueV{Key: "neg(" + vkey(v) + ")", T: x.Type(), NonNil: true})
	case token.XOR:
		if n, ok := v.(*Num); ok {
			return one(st, numBin(st, "^", n, numConst(wrapConst(-1, n.W, n.Signed), n.W, n.Signed)))
		}
	case token.ARROW:
		el := x.X.Type().Underlying().(*types.Chan).Elem()
		var out []callRes
		for _, r := range in.recv(st, v, el) {
			if x.CommaOk {
				out = append(out, callRes{r.st, &TupleV{[]Val{r.v, r.ok}}})
			} else {
				out = append(out, callRes{r.st, r.v})
			}
		}
		return out
	}
	return one(st, in.symVal(st, x.Type(), in.freshName("unop")))
}

func (in *Interp) binop(it *item, ins ssa.Instruction, op token.Token, a, b Val, ta, tr types.Type) []callRes {
	st := it.st
	x, okx := a.(*Num)
	y, oky := b.(*Num)
	if okx && oky {
		switch op {
		case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
			return one(st, &BoolV{cmpCond(op.String(), st.resolve(x), st.resolve(y))})
		case token.QUO, token.REM:
			if !in.need(st, ins, "div", &Cond{Kind: 'e', L: y.L, Neg: true}, "division by zero: "+vstr(y)) {
				return nil
			}
		case token.SHL, token.SHR:
			if y.Signed {
				if !in.need(st, ins, "shift", geCond(y.L), "negative shift") {
					return nil
				}
			}
			r := st.resolve(y)
			if !r.L.isConst() {
				// fork over a small range of shift counts
				lo, hi := st.rangeLin(r.L)
				if lo >= 0 && hi-lo <= 64 {
					var out []callRes
					for k := lo; k <= hi; k++ {
						s := st.clone()
						s.assumeEQ(linAddK(r.L, 1, linConst(-k)))
						if s.dead {
							continue
						}
						out = append(out, callRes{s, numBin(s, op.String(), s.resolve(x), numConst(k, y.W, y.Signed))})
					}
					if len(out) <= 12 {
						return out
					}
				}
			}
		}
		return one(st, numBin(st, op.String(), st.resolve(x), st.resolve(y)))
	}
	switch op {
	case token.EQL, token.NEQ:
		c := in.eqCond(st, a, b)
		if op == token.NEQ {
			c = condNot(c)
		}
		return one(st, &BoolV{c})
	case token.ADD:
		if s, ok := a.(*StrV); ok {
			if t, ok := b.(*StrV); ok {
				return one(st, &StrV{in.normSegs(st, append(append([]Seg{}, s.S...), t.S...))})
			}
		}
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		if s, ok := a.(*StrV); ok {
			if t, ok := b.(*StrV); ok {
				l1, k1 := s.lit()
				l2, k2 := t.lit()
				if k1 && k2 {
					r := false
					switch op {
					case token.LSS:
						r = l1 < l2
					case token.LEQ:
						r = l1 <= l2
					case token.GTR:
						r = l1 > l2
					case token.GEQ:
						r = l1 >= l2
					}
					return one(st, boolConst(r))
				}
			}
		}
		k1, k2 := vkey(a), vkey(b)
		switch op {
		case token.LSS:
			return one(st, predV("lt("+k1+","+k2+")"))
		case token.GTR:
			return one(st, predV("lt("+k2+","+k1+")"))
		case token.LEQ:
			return one(st, &BoolV{condNot(predV("lt(" + k2 + "," + k1 + ")").C)})
		case token.GEQ:
			return one(st, &BoolV{condNot(predV("lt(" + k1 + "," + k2 + ")").C)})
		}
	case token.AND, token.OR:
		// booleans do not use these in SSA
	}
	if isFloat(tr) {
		return one(st, &OpaqueV{Key: "(" + vkey(a) + op.String() + vkey(b) + ")", T: tr, NonNil: true, Args: []Val{a, b}})
	}
	return one(st, in.symVal(st, tr, in.freshName("binop")))
}

// eqCond: symbolic equality
func (in *Interp) eqCond(st *State, a, b Val) *Cond {
	tr, fa := &Cond{Kind: 'c', C: true}, &Cond{Kind: 'c', C: false}
	isNil := func(v Val) bool {
		switch x := v.(type) {
		case *NilV, *NilIface:
			return true
		case *PtrV:
			return x.Obj == 0
		case *MapV:
			return x.Obj == 0
		case *SliceV:
			return x.Obj == 0
		}
		return false
	}
	if isNil(b) {
		return in.isNilCond(st, a)
	}
	if isNil(a) {
		return in.isNilCond(st, b)
	}
	switch x := a.(type) {
	case *Num:
		if y, ok := b.(*Num); ok {
			return cmpCond("==", st.resolve(x), st.resolve(y))
		}
	case *BoolV:
		if y, ok := b.(*BoolV); ok {
			if r := st.evalCond(y.C); r >= 0 {
				if r == 1 {
					return x.C
				}
				return condNot(x.C)
			}
			if r := st.evalCond(x.C); r >= 0 {
				if r == 1 {
					return y.C
				}
				return condNot(y.C)
			}
			if x.C.String() == y.C.String() {
				return tr
			}
		}
	case *StrV:
		if y, ok := b.(*StrV); ok {
			return in.strEqCond(st, x, y)
		}
	case *StructV:
		if y, ok := b.(*StructV); ok && len(x.F) == len(y.F) {
			c := &Cond{Kind: 'a'}
			for i := range x.F {
				c.Sub = append(c.Sub, in.eqCond(st, x.F[i], y.F[i]))
			}
			return c
		}
	case *ArrayV:
		if y, ok := b.(*ArrayV); ok {
			if eq, _ := in.seqEqual(st, x.S, y.S); eq {
				return tr
			}
		}
	case *IfaceV:
		switch y := b.(type) {
		case *IfaceV:
			if !types.Identical(x.T, y.T) {
				return fa
			}
			return in.eqCond(st, x.V, y.V)
		case *OpaqueV:
			if y.Distinct {
				return fa
			}
		}
	case *OpaqueV:
		if y, ok := b.(*OpaqueV); ok {
			if x.Key == y.Key {
				return tr
			}
			if x.Distinct && y.Distinct {
				return fa
			}
			if x.Distinct && strings.HasPrefix(y.Key, "err:") || y.Distinct && strings.HasPrefix(x.Key, "err:") {
				return fa
			}
		}
		if y, ok := b.(*IfaceV); ok && x.Distinct {
			_ = y
			return fa
		}
	case *PtrV:
		if y, ok := b.(*PtrV); ok {
			if vkey(x) == vkey(y) {
				return tr
			}
			if x.NilPred == "" && y.NilPred == "" && x.Obj != y.Obj {
				return fa
			}
		}
	}
	k1, k2 := vkey(a), vkey(b)
	if k1 == k2 {
		return tr
	}
	if k1 > k2 {
		k1, k2 = k2, k1
	}
	return &Cond{Kind: 'p', P: "eq(" + k1 + "," + k2 + ")"}
}

func (in *Interp) strEqCond(st *State, x, y *StrV) *Cond {
	xs, ys := in.normSegs(st, x.S), in.normSegs(st, y.S)
	x, y = &StrV{xs}, &StrV{ys}
	l1, k1 := x.lit()
	l2, k2 := y.lit()
	if k1 && k2 {
		return &Cond{Kind: 'c', C: l1 == l2}
	}
	if k1 {
		x, y, xs, ys = y, x, ys, xs
		l2, k2 = l1, true
	}
	if k2 {
		return in.segsLitCond(st, xs, l2)
	}
	if eq, _ := in.seqEqual(st, xs, ys); eq {
		return &Cond{Kind: 'c', C: true}
	}
	// lengths that cannot agree
	if st.proveNE(linSub(seqLen(xs), seqLen(ys))) {
		return &Cond{Kind: 'c', C: false}
	}
	a, b := segsKey(xs), segsKey(ys)
	if a > b {
		a, b = b, a
	}
	return &Cond{Kind: 'p', P: "streq(" + a + "," + b + ")"}
}

// segsLitCond: condition under which the segments spell the literal
func (in *Interp) segsLitCond(st *State, segs []Seg, lit string) *Cond {
	fa := &Cond{Kind: 'c', C: false}
	if st.proveNE(linAddK(seqLen(segs), 1, linConst(int64(-len(lit))))) {
		return fa
	}
	if len(segs) == 1 {
		if s, ok := segs[0].(*SegSpan); ok && s.R.Fmt == nil && st.proveEQ(s.Off) && st.proveEQ(linSub(s.N, s.R.Len.L)) {
			return &Cond{Kind: 's', R: s.R, P: lit}
		}
	}
	c := &Cond{Kind: 'a'}
	fallback := func() *Cond { return &Cond{Kind: 'p', P: "streq(" + segsKey(segs) + "," + strconv.Quote(lit) + ")"} }
	rest := lit
	for i, g := range segs {
		last := i == len(segs)-1
		switch x := g.(type) {
		case *SegLit:
			if !strings.HasPrefix(rest, x.S) {
				return fa
			}
			rest = rest[len(x.S):]
		case *SegElem:
			n, ok := x.V.(*Num)
			if !ok {
				return fallback()
			}
			if rest == "" {
				return fa
			}
			c.Sub = append(c.Sub, cmpCond("==", n, numConst(int64(rest[0]), 8, false)))
			rest = rest[1:]
		case *SegSpan:
			if x.R.Fmt != nil {
				switch x.R.Fmt.Kind {
				case "hex2":
					if x.R.Fmt.N.W == 8 || last && len(rest) == 2 {
						if len(rest) < 2 {
							return fa
						}
						v, err := strconv.ParseUint(rest[:2], 16, 8)
						if err != nil || strings.ToUpper(rest[:2]) != rest[:2] {
							return fa
						}
						c.Sub = append(c.Sub, cmpCond("==", x.R.Fmt.N, numConst(int64(v), 8, false)))
						rest = rest[2:]
						continue
					}
				case "dec":
					if last {
						v, err := strconv.ParseInt(rest, 10, 63)
						if err != nil || strconv.FormatInt(v, 10) != rest {
							return fa
						}
						c.Sub = append(c.Sub, cmpCond("==", x.R.Fmt.N, intConst(v)))
						rest = ""
						continue
					}
				}
				return fallback()
			}
			if last {
				if len(rest) > 64 {
					return fallback()
				}
				c.Sub = append(c.Sub, &Cond{Kind: 'e', L: linAddK(x.N, 1, linConst(int64(-len(rest))))})
				for j := 0; j < len(rest); j++ {
					e, ok := in.spanElem(st, x.R, linAddK(x.Off, 1, linConst(int64(j)))).(*Num)
					if !ok {
						return fallback()
					}
					c.Sub = append(c.Sub, cmpCond("==", e, numConst(int64(rest[j]), 8, false)))
				}
				rest = ""
				continue
			}
			return fallback()
		default:
			return fallback()
		}
	}
	if rest != "" {
		return fa
	}
	if len(c.Sub) == 1 {
		return c.Sub[0]
	}
	return c
}

func (in *Interp) convert(it *item, ins ssa.Instruction, v Val, from, to types.Type) []callRes {
	st := it.st
	if w, s, ok := numType(to); ok {
		switch x := v.(type) {
		case *Num:
			return one(st, numConv(st, st.resolve(x), w, s))
		case *OpaqueV:
			a := internAtom("conv:"+to.String()+":"+x.Key, w, s, func(a *Atom) { a.Op = "float" })
			return one(st, numAtom(a, w, s))
		}
		return one(st, in.symVal(st, to, in.freshName("conv")))
	}
	if isFloat(to) {
		if n, ok := v.(*Num); ok {
			return one(st, &OpaqueV{Key: "float(" + n.L.key() + ")", T: to, NonNil: true, Args: []Val{n}})
		}
		if o, ok := v.(*OpaqueV); ok {
			return one(st, &OpaqueV{Key: o.Key, T: to, NonNil: true, Args: o.Args})
		}
	}
	if isString(to) {
		switch x := v.(type) {
		case *StrV:
			return one(st, x)
		case *SliceV:
			if w, _, ok := numType(from.Underlying().(*types.Slice).Elem()); ok && w == 8 {
				return one(st, &StrV{in.normSegs(st, litBytes(in.sliceSegs(st, x)))})
			}
			// runes
			segs := in.normSegs(st, in.sliceSegs(st, x))
			if r, ok := in.runesToStr(st, segs); ok {
				return one(st, r)
			}
			cls := in.runesClass(st, segs)
			r := internSeq("fromrunes:"+segsKey(segs), byteT, func(r *SeqAtom) { r.Class, r.Whole = cls, true })
			if csSub(cls, cset{0, 127}) {
				st.assumeEQ(linSub(r.Len.L, seqLen(segs)))
			} else if _, hi := st.rangeLin(seqLen(segs)); hi < 1<<40 {
				st.setRange(r.Len.L.T[0].A, 0, 4*hi)
			}
			return one(st, wholeStr(r))
		case *Num:
			if c, ok := st.resolve(x).constVal(); ok {
				return one(st, strLit(string(rune(c))))
			}
			r := internSeq("runestr:"+x.L.key(), byteT, nil)
			return one(st, wholeStr(r))
		}
	}
	if sl, ok := to.Underlying().(*types.Slice); ok {
		if s, ok := v.(*StrV); ok {
			w, _, isn := numType(sl.Elem())
			if isn && w == 8 {
				return one(st, in.newSlice(st, strToElems(in.normSegs(st, s.S)), sl.Elem()))
			}
			segs := in.normSegs(st, s.S)
			return one(st, in.newSlice(st, in.strToRunes(st, segs), sl.Elem()))
		}
		if s, ok := v.(*SliceV); ok {
			return one(st, s)
		}
	}
	if vkey(v) != "" {
		if _, ok := v.(*OpaqueV); !ok {
			return one(st, v)
		}
	}
	return one(st, in.symVal(st, to, in.freshName("conv")))
}

// strToRunes: rune sequence of a string; ASCII segments map one to one, other segments become a root with an unknown rune count
func (in *Interp) strToRunes(st *State, segs []Seg) []Seg {
	var out []Seg
	for _, g := range segs {
		if l, ok := g.(*SegLit); ok {
			for _, r := range l.S {
				out = append(out, &SegElem{numConst(int64(r), 32, true)})
			}
			continue
		}
		key := "runes:" + segKey(g)
		r := internSeq(key, types.Typ[types.Rune], func(r *SeqAtom) {
			r.Name = "runes(" + segString(g) + ")"
			r.Fmt = nil
			r.Whole = true
		})
		runeSrc[r.ID] = g
		if csSub(in.segClass(st, g), cset{0, 127}) {
			st.assumeEQ(linSub(r.Len.L, g.slen()))
		} else {
			st.assumeGE(linSub(g.slen(), r.Len.L))
			// every rune takes at least one byte, and a non-empty string has at least one rune
			if st.proveGE(linAddK(g.slen(), 1, linConst(-1))) {
				st.assumeGE(linAddK(r.Len.L, 1, linConst(-1)))
			}
		}
		out = append(out, &SegSpan{r, linConst(0), r.Len.L})
	}
	return out
}

var runeSrc = map[int]Seg{}

func asciiFmt(f *FmtDesc) bool { return f.Kind == "dec" || f.Kind == "hex2" || f.Kind == "hexlist" }

func (in *Interp) runesToStr(st *State, segs []Seg) (*StrV, bool) {
	var out []Seg
	for _, g := range segs {
		switch x := g.(type) {
		case *SegElem:
			n, ok := x.V.(*Num)
			if !ok {
				return nil, false
			}
			c, ok := n.constVal()
			if !ok {
				return nil, false
			}
			out = append(out, &SegLit{string(rune(c))})
		case *SegSpan:
			src, ok := runeSrc[x.R.ID]
			if !ok || !st.proveEQ(x.Off) {
				return nil, false
			}
			if st.proveEQ(linSub(x.N, x.R.Len.L)) {
				out = append(out, src)
			} else {
				r := internSeq("runeprefix:"+segKey(src)+":"+x.N.key(), byteT, func(r *SeqAtom) {
					r.Fmt = &FmtDesc{Kind: "prefix", Segs: []Seg{src}, N: intLin(x.N)}
				})
				if _, hi := st.rangeLin(x.N); hi < 1<<40 {
					st.setRange(r.Len.L.T[0].A, 0, 4*hi)
				}
				out = append(out, wholeStr(r).S...)
			}
		default:
			return nil, false
		}
	}
	return &StrV{in.normSegs(st, out)}, true
}

func (in *Interp) slice(it *item, x *ssa.Slice) []callRes {
	st := it.st
	v := in.val(it, x.X)
	get := func(e ssa.Value) *Lin {
		if e == nil {
			return nil
		}
		if n, ok := in.val(it, e).(*Num); ok {
			return st.resolveLin(n.L)
		}
		return linAtom(newAtom(in.freshName("bound"), 64, true))
	}
	lo, hi, mx := get(x.Low), get(x.High), get(x.Max)
	if lo == nil {
		lo = linConst(0)
	}
	chk := func(c *Lin, what string) bool {
		return in.need(st, x, "slice", geCond(c), what)
	}
	switch s := v.(type) {
	case *StrV:
		n := seqLen(s.S)
		if hi == nil {
			hi = n
		}
		if !chk(lo, "negative slice bound") || !chk(linSub(hi, lo), fmt.Sprintf("slice bounds out of range [%v:%v]", lo, hi)) || !chk(linSub(n, hi), fmt.Sprintf("slice bound %v may exceed length %v", hi, n)) {
			return nil
		}
		return one(st, &StrV{in.subAny(st, in.normSegs(st, s.S), lo, hi, byteT)})
	case *SliceV:
		if s.Obj == 0 {
			s = &SliceV{Obj: 0, Off: linConst(0), Len: linConst(0), Cap: linConst(0), Elem: s.Elem}
		}
		n := s.lenLin()
		if hi == nil {
			hi = n
		}
		cp := s.Cap
		lim := n
		if cp != nil {
			lim = cp
		}
		if mx != nil {
			if !chk(linSub(mx, hi), "slice bound exceeds max") || !chk(linSub(lim, mx), "slice max exceeds capacity") {
				return nil
			}
			cp = mx
		}
		if !chk(lo, fmt.Sprintf("slice bound %v may be negative", lo)) || !chk(linSub(hi, lo), fmt.Sprintf("slice bounds out of range [%v:%v] (length %v)", lo, hi, n)) || !chk(linSub(lim, hi), fmt.Sprintf("slice bound %v may exceed capacity %v", hi, lim)) {
			return nil
		}
		r := *s
		if s.Obj != 0 {
			r.Off = st.resolveLin(linAdd(s.Off, lo))
			r.Len = st.resolveLin(linSub(hi, lo))
			if cp != nil {
				r.Cap = st.resolveLin(linSub(cp, lo))
			}
		}
		return one(st, &r)
	case *PtrV, *OpaqueV: // pointer to array
		p := in.deref(st, x, v, x.X.Type())
		if p == nil {
			return nil
		}
		pt, ok := x.X.Type().Underlying().(*types.Pointer)
		if !ok {
			break
		}
		at, ok := pt.Elem().Underlying().(*types.Array)
		if !ok {
			break
		}
		n := linConst(at.Len())
		if hi == nil {
			hi = n
		}
		if !chk(lo, "negative slice bound") || !chk(linSub(hi, lo), "slice bounds out of range") || !chk(linSub(n, hi), "slice bound exceeds array length") {
			return nil
		}
		if len(p.Path) > 0 {
			// array inside another object: copy (writes through the slice are not tracked back)
			in.unmod["slice of an embedded array"]++
			av, _ := in.load(st, p, at).(*ArrayV)
			if av == nil {
				break
			}
			id := st.alloc(&SeqV{av.S})
			return one(st, &SliceV{Obj: id, Off: lo, Len: linSub(hi, lo), Cap: linSub(n, lo), Elem: at.Elem()})
		}
		in.object(st, p.Obj)
		return one(st, &SliceV{Obj: p.Obj, Off: lo, Len: st.resolveLin(linSub(hi, lo)), Cap: linSub(n, lo), Elem: at.Elem()})
	}
	return one(st, in.symVal(st, x.Type(), in.freshName("slice")))
}

// ---------------------------------------------------------------- maps

func (in *Interp) mapSet(st *State, m *MapV, k, v Val) {
	o, ok := in.object(st, m.Obj).(*MapObj)
	if !ok {
		return
	}
	n := *o
	n.E = append([]MapEntry{}, o.E...)
	// replace an equal key
	for i := range n.E {
		if st.evalCond(in.eqCond(st, n.E[i].K, k)) == 1 {
			// only safe if later entries cannot be equal
			clear := true
			for j := i + 1; j < len(n.E); j++ {
				if st.evalCond(in.eqCond(st, n.E[j].K, k)) != 0 {
					clear = false
				}
			}
			if clear {
				n.E[i] = MapEntry{K: k, V: v}
				st.set(m.Obj, &n)
				return
			}
		}
	}
	n.E = append(n.E, MapEntry{K: k, V: v})
	st.set(m.Obj, &n)
}

type mapHit struct {
	st *State
	v  Val // nil: absent
	ok *Cond
}

func (in *Interp) mapGet(st *State, m Val, k Val, vt types.Type) []mapHit {
	fa := &Cond{Kind: 'c', C: false}
	tr := &Cond{Kind: 'c', C: true}
	mv, ok := m.(*MapV)
	if !ok {
		return []mapHit{{st, in.symVal(st, vt, in.freshName("mapval")), predV(in.freshName("mapok")).C}}
	}
	if mv.Obj == 0 {
		return []mapHit{{st, in.zero(st, vt), fa}}
	}
	o, ok := in.object(st, mv.Obj).(*MapObj)
	if !ok {
		return []mapHit{{st, in.symVal(st, vt, in.freshName("mapval")), predV(in.freshName("mapok")).C}}
	}
	var out []mapHit
	cur := st
	for i := len(o.E) - 1; i >= 0; i-- {
		e := o.E[i]
		c := in.eqCond(cur, e.K, k)
		r := cur.evalCond(c)
		if r == 0 {
			continue
		}
		if r == 1 {
			if e.Del {
				out = append(out, mapHit{cur, in.zero(cur, vt), fa})
			} else {
				out = append(out, mapHit{cur, e.V, tr})
			}
			return out
		}
		s := cur.clone()
		s.assume(c, true)
		cur = cur.clone()
		cur.assume(c, false)
		if !s.dead {
			if e.Del {
				out = append(out, mapHit{s, in.zero(s, vt), fa})
			} else {
				out = append(out, mapHit{s, e.V, tr})
			}
		}
		if cur.dead {
			return out
		}
	}
	if o.Sym != "" {
		key := "map:" + o.Sym + ":" + vkey(k)
		v, ok := cur.sym[key]
		if !ok {
			v = in.symVal(cur, vt, o.Sym+"["+vkey(k)+"]")
			cur.sym[key] = v
		}
		p := predV("has:" + o.Sym + ":" + vkey(k)).C
		switch cur.evalCond(p) {
		case 1:
			out = append(out, mapHit{cur, v, tr})
		case 0:
			out = append(out, mapHit{cur, in.zero(cur, vt), fa})
		default:
			s := cur.clone()
			s.assume(p, true)
			cur.assume(p, false)
			out = append(out, mapHit{s, v, tr}, mapHit{cur, in.zero(cur, vt), fa})
		}
		return out
	}
	out = append(out, mapHit{cur, in.zero(cur, vt), fa})
	return out
}

func (in *Interp) lookup(it *item, x *ssa.Lookup) []callRes {
	st := it.st
	m := in.val(it, x.X)
	k := in.val(it, x.Index)
	if s, ok := m.(*StrV); ok {
		i, ok := k.(*Num)
		if !ok {
			return one(st, in.symVal(st, x.Type(), in.freshName("idx")))
		}
		segs := in.normSegs(st, s.S)
		if !in.bounds(st, x, i.L, seqLen(segs)) {
			return nil
		}
		return in.indexValue(st, segs, i.L, byteT)
	}
	mt, ok := x.X.Type().Underlying().(*types.Map)
	if !ok {
		return one(st, in.symVal(st, x.Type(), in.freshName("lookup")))
	}
	var out []callRes
	for _, h := range in.mapGet(st, m, k, mt.Elem()) {
		if x.CommaOk {
			out = append(out, callRes{h.st, &TupleV{[]Val{h.v, &BoolV{h.ok}}}})
		} else {
			out = append(out, callRes{h.st, h.v})
		}
	}
	return out
}

func (in *Interp) mkRange(st *State, v Val, t types.Type) Val {
	o := &IterObj{}
	switch x := v.(type) {
	case *MapV:
		mt := t.Underlying().(*types.Map)
		o.KT, o.VT = mt.Key(), mt.Elem()
		if x.Obj != 0 {
			m, ok := in.object(st, x.Obj).(*MapObj)
			if !ok || m.Sym != "" {
				o.Sym = in.freshName("range")
				if ok {
					o.Sym = "range:" + m.Sym
				}
			} else {
				for _, e := range m.E {
					if !e.Del {
						o.Keys = append(o.Keys, e.K)
						o.Vals = append(o.Vals, e.V)
					}
				}
			}
		}
	case *StrV:
		o.KT, o.VT = types.Typ[types.Int], types.Typ[types.Rune]
		if s, ok := x.lit(); ok {
			for i, r := range s {
				o.Keys = append(o.Keys, intConst(int64(i)))
				o.Vals = append(o.Vals, numConst(int64(r), 32, true))
			}
		} else {
			o.Sym = in.freshName("range")
		}
	default:
		o.Sym = in.freshName("range")
		o.KT, o.VT = types.Typ[types.Int], types.Typ[types.Int]
		if mt, ok := t.Underlying().(*types.Map); ok {
			o.KT, o.VT = mt.Key(), mt.Elem()
		}
	}
	return &IterV{st.alloc(o)}
}

func (in *Interp) next(it *item, x *ssa.Next) []callRes {
	st := it.st
	tt := x.Type().(*types.Tuple)
	v, ok := in.val(it, x.Iter).(*IterV)
	if !ok {
		return one(st, in.symVal(st, x.Type(), in.freshName("next")))
	}
	o, ok := st.get(v.Obj).(*IterObj)
	if !ok {
		return one(st, in.symVal(st, x.Type(), in.freshName("next")))
	}
	zero := func(t types.Type) Val {
		if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
			return &NilV{}
		}
		return in.zero(st, t)
	}
	if o.Sym != "" {
		n := *o
		n.N++
		p := predV(fmt.Sprintf("more:%s:%d", o.Sym, o.N)).C
		s := st.clone()
		s.assume(p, true)
		s.set(v.Obj, &n)
		k := in.symVal(s, o.KT, fmt.Sprintf("key:%s:%d", o.Sym, o.N))
		w := in.symVal(s, o.VT, fmt.Sprintf("val:%s:%d", o.Sym, o.N))
		st.assume(p, false)
		return []callRes{{s, &TupleV{[]Val{boolConst(true), k, w}}}, {st, &TupleV{[]Val{boolConst(false), zero(tt.At(1).Type()), zero(tt.At(2).Type())}}}}
	}
	if o.Pos >= len(o.Keys) {
		return one(st, &TupleV{[]Val{boolConst(false), zero(tt.At(1).Type()), zero(tt.At(2).Type())}})
	}
	n := *o
	n.Pos++
	st.set(v.Obj, &n)
	return one(st, &TupleV{[]Val{boolConst(true), o.Keys[o.Pos], o.Vals[o.Pos]}})
}

// ---------------------------------------------------------------- type assertions

func (in *Interp) typeAssert(it *item, x *ssa.TypeAssert) []callRes {
	st := it.st
	v := in.val(it, x.X)
	t := x.AssertedType
	ok1 := func(s *State, r Val) callRes {
		if x.CommaOk {
			return callRes{s, &TupleV{[]Val{r, boolConst(true)}}}
		}
		return callRes{s, r}
	}
	fail := func(s *State) []callRes {
		if x.CommaOk {
			return one(s, &TupleV{[]Val{in.zero(s, t), boolConst(false)}})
		}
		in.oblige(s, x, "assert", false, "type assertion to "+t.String()+" may fail")
		s.dead = true
		return nil
	}
	good := func() {
		if !x.CommaOk {
			in.oblige(st, x, "assert", true, "")
		}
	}
	switch y := v.(type) {
	case *IfaceV:
		match := false
		if it, ok := t.Underlying().(*types.Interface); ok {
			match = types.Implements(y.T, it)
			if match {
				good()
				return []callRes{ok1(st, y)}
			}
			return fail(st)
		}
		match = types.Identical(y.T, t)
		if match {
			good()
			return []callRes{ok1(st, y.V)}
		}
		return fail(st)
	case *NilIface, *NilV, nil:
		return fail(st)
	case *OpaqueV:
		if y.Ts != nil {
			all, some := true, false
			for _, d := range y.Ts {
				m := false
				if i, ok := t.Underlying().(*types.Interface); ok {
					m = types.Implements(d, i)
				} else {
					m = types.Identical(d, t)
				}
				all = all && m
				some = some || m
			}
			if !some {
				return fail(st)
			}
			if all && in.nonNil(st, y) {
				good()
				if types.IsInterface(t) {
					z := *y
					z.T, z.NonNil = t, true
					return []callRes{ok1(st, &z)}
				}
			}
		}
		if _, isI := t.Underlying().(*types.Interface); isI {
			if y.T != nil && types.IsInterface(y.T) {
				if it, ok := t.Underlying().(*types.Interface); ok && types.Implements(y.T, it) {
					// static type already guarantees it; only nil fails
					c := in.isNilCond(st, y)
					switch st.evalCond(c) {
					case 0:
						good()
						return []callRes{ok1(st, y)}
					case 1:
						return fail(st)
					}
					s := st.clone()
					s.assume(c, true)
					st.assume(c, false)
					out := []callRes{ok1(st, y)}
					return append(out, fail(s)...)
				}
			}
		}
		p := predV("is:" + y.Key + ":" + t.String()).C
		yes := func(s *State) callRes {
			key := "as:" + y.Key + ":" + t.String()
			r, ok := s.sym[key]
			if !ok {
				if types.IsInterface(t) {
					r = &OpaqueV{Key: y.Key, T: t, NonNil: true, Args: y.Args, Ts: y.Ts}
				} else {
					r = in.symVal(s, t, y.Key+".("+t.String()+")")
				}
				s.sym[key] = r
			}
			s.preds["nil:"+y.Key] = false
			return ok1(s, r)
		}
		switch st.evalCond(p) {
		case 1:
			return []callRes{yes(st)}
		case 0:
			return fail(st)
		}
		s := st.clone()
		s.assume(p, true)
		st.assume(p, false)
		out := []callRes{yes(s)}
		return append(out, fail(st)...)
	}
	return one(st, in.symVal(st, x.Type(), in.freshName("assert")))
}
