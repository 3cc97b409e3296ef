package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type callCtx struct {
	in    *Interp
	st    *State
	instr ssa.Instruction
	fn    *ssa.Function
	args  []Val
	sig   *types.Signature
}

type model func(c *callCtx) []callRes

func (in *Interp) callee(it *item, c *ssa.CallCommon) (Val, []Val) {
	var args []Val
	if c.IsInvoke() {
		recv := in.val(it, c.Value)
		args = append(args, recv)
		for _, a := range c.Args {
			args = append(args, in.val(it, a))
		}
		return nil, args
	}
	for _, a := range c.Args {
		args = append(args, in.val(it, a))
	}
	return in.val(it, c.Value), args
}

func resultOf(sig *types.Signature) types.Type {
	if sig.Results().Len() == 1 {
		return sig.Results().At(0).Type()
	}
	return sig.Results()
}

func (in *Interp) havocCall(st *State, name string, sig *types.Signature, args []Val) []callRes {
	in.unmod[name]++
	if verbose {
		println("unmodelled", name)
	}
	// the callee may write through pointers it is given
	if !pureExt(name) {
		for _, a := range args {
			in.havocArg(st, a, 0)
		}
	}
	return one(st, in.symVal(st, resultOf(sig), in.freshName("call:"+name)))
}

// library functions (not methods) that never write through their arguments
func pureExt(name string) bool {
	i := strings.LastIndexByte(name, '.')
	if i < 0 || strings.HasPrefix(name, "(") {
		return strings.HasPrefix(name, "(*regexp.Regexp).") || strings.HasPrefix(name, "(time.")
	}
	pkg, fn := name[:i], name[i+1:]
	switch pkg {
	case "strings", "unicode", "unicode/utf8", "math", "math/bits", "cmp", "errors", "path", "path/filepath", "encoding/hex", "regexp", "html", "maps":
		return !strings.HasPrefix(fn, "Encode") && !strings.HasPrefix(fn, "Decode") && fn != "As" && fn != "Copy" && !strings.HasPrefix(fn, "Delete") || fn == "EncodeToString" || fn == "DecodeString"
	case "strconv":
		return !strings.HasPrefix(fn, "Append")
	case "bytes", "fmt":
		return !strings.HasPrefix(fn, "New") && !strings.HasPrefix(fn, "Append") && !strings.HasPrefix(fn, "Fprint") && !strings.HasPrefix(fn, "Sscan") && !strings.HasPrefix(fn, "Fscan") && !strings.HasPrefix(fn, "Scan")
	case "slices":
		switch fn {
		case "Equal", "EqualFunc", "Compare", "CompareFunc", "Index", "IndexFunc", "Contains", "ContainsFunc", "Max", "Min", "MaxFunc", "MinFunc", "IsSorted", "BinarySearch", "BinarySearchFunc", "Repeat", "Sorted", "Collect", "Values", "All":
			return true
		}
	}
	return false
}

func (in *Interp) havocArg(st *State, a Val, depth int) {
	if depth > 3 {
		return
	}
	switch x := a.(type) {
	case *PtrV:
		if x.Obj == 0 {
			return
		}
		cur := in.walk(st, in.object(st, x.Obj), x.Path)
		if cur == nil {
			return
		}
		if s, ok := cur.(*StructV); ok {
			in.store(st, x, in.symVal(st, s.T, in.freshName("havoc")))
		} else if t := in.elemTypeOf(cur); t != nil {
			in.store(st, x, in.symVal(st, t, in.freshName("havoc")))
		}
	case *SliceV:
		if x.Obj == 0 || x.Elem == nil {
			return
		}
		if s, ok := st.get(x.Obj).(*SeqV); ok {
			r := newSeqAtom(in.freshName("havoc"), x.Elem)
			st.set(x.Obj, &SeqV{[]Seg{&SegSpan{r, linConst(0), seqLen(s.S)}}})
		}
	case *IfaceV:
		in.havocArg(st, x.V, depth+1)
	}
}

func (in *Interp) callVal(st *State, instr ssa.Instruction, c *ssa.CallCommon, f Val, args []Val) []callRes {
	in.tick()
	if c.IsInvoke() && f == nil {
		return in.invoke(st, instr, c.Method, args)
	}
	switch x := f.(type) {
	case *FuncV:
		if x.F == nil {
			return in.builtin(st, instr, c, x.Bl, args)
		}
		return in.callFn(st, instr, x.F, args, x.B)
	case *NilV, *NilIface:
		in.oblige(st, instr, "nil", false, "call of a nil function")
		return in.kill(st)
	}
	return in.havocCall(st, "dynamic:"+c.Value.Name(), c.Signature(), args)
}

func (in *Interp) invoke(st *State, instr ssa.Instruction, m *types.Func, args []Val) []callRes {
	sig := m.Type().(*types.Signature)
	switch r := args[0].(type) {
	case *IfaceV:
		fn := in.P.Prog.LookupMethod(r.T, m.Pkg(), m.Name())
		if fn == nil {
			return in.havocCall(st, "invoke:"+m.FullName(), sig, args[1:])
		}
		a := append([]Val{r.V}, args[1:]...)
		return in.callFn(st, instr, fn, a, nil)
	case *NilIface, *NilV:
		in.oblige(st, instr, "nil", false, "method call on a nil interface")
		return in.kill(st)
	case *OpaqueV:
		if !r.NonNil {
			c := in.isNilCond(st, r)
			switch st.evalCond(c) {
			case 1:
				in.oblige(st, instr, "nil", false, "method call on a nil interface")
				return in.kill(st)
			case -1:
				in.oblige(st, instr, "nil", false, "method call on an interface that may be nil: "+r.Key)
				st.assume(c, false)
			}
		}
		if in.hookInvoke != nil {
			if res, ok := in.hookInvoke(in, st, instr, r, m, args[1:]); ok {
				return res
			}
		}
		if m.Name() == "Error" || m.Name() == "String" {
			return one(st, wholeStr(internSeq("str:"+m.Name()+":"+r.Key, byteT, nil)))
		}
		if mm, ok := ifaceModels[m.Name()]; ok {
			if res := mm(&callCtx{in, st, instr, nil, args, sig}); res != nil {
				return res
			}
		}
		return in.havocCall(st, "invoke:"+m.FullName(), sig, args[1:])
	}
	return in.havocCall(st, "invoke:"+m.FullName(), sig, args[1:])
}

var ifaceModels = map[string]model{}

func (in *Interp) callFn(st *State, instr ssa.Instruction, fn *ssa.Function, args, binds []Val) []callRes {
	if in.hook != nil {
		if r, ok := in.hook(in, st, fn, args); ok {
			return r
		}
	}
	name := fn.String()
	if o := fn.Origin(); o != nil {
		name = o.String()
	}
	if m, ok := models[name]; ok {
		return m(&callCtx{in, st, instr, fn, args, fn.Signature})
	}
	if fn.Blocks != nil && (in.P.isRepoFn(fn) || inlineExt(fn)) {
		return in.run(st, instr, fn, args, binds)
	}
	return in.havocCall(st, name, fn.Signature, args)
}

func (in *Interp) inline(c *callCtx) []callRes { return in.run(c.st, c.instr, c.fn, c.args, nil) }

func (in *Interp) run(st *State, instr ssa.Instruction, fn *ssa.Function, args, binds []Val) []callRes {
	{
		outs := in.execFn(fn, args, binds, st, instr)
		res := []callRes{}
		for _, o := range outs {
			var v Val
			switch len(o.ret) {
			case 0:
				v = &TupleV{}
			case 1:
				v = o.ret[0]
			default:
				v = &TupleV{o.ret}
			}
			res = append(res, callRes{o.st, v})
		}
		return res
	}
}

// external functions simple enough to be analysed through their own source
func inlineExt(fn *ssa.Function) bool {
	p := fnPkg(fn)
	if p == nil {
		return fn.Synthetic != ""
	}
	if fn.Synthetic != "" && fn.Signature.Recv() != nil && strings.Contains(fn.Synthetic, "wrapper") {
		return true
	}
	switch p.Path() {
	case "encoding/binary":
		n := fn.String()
		return strings.HasPrefix(n, "(encoding/binary.bigEndian).") || strings.HasPrefix(n, "(encoding/binary.littleEndian).")
	case "slices":
		n := fn.Name()
		if o := fn.Origin(); o != nil {
			n = o.Name()
		}
		switch n {
		case "Contains", "Index", "IndexFunc", "ContainsFunc", "Reverse", "Equal", "EqualFunc", "Max", "Min", "MaxFunc", "MinFunc", "Values", "All", "Backward":
			return true
		}
		if fn.Parent() != nil {
			return true
		}
	case "cmp", "maps":
		return true
	case "math/bits":
		return true
	case "encoding/json", "encoding/json/v2":
		return false
	}
	return false
}

// ---------------------------------------------------------------- builtins

func (in *Interp) builtin(st *State, instr ssa.Instruction, c *ssa.CallCommon, name string, args []Val) []callRes {
	switch name {
	case "len", "cap":
		switch x := args[0].(type) {
		case *StrV:
			return one(st, intLin(st.resolveLin(seqLen(in.normSegs(st, x.S)))))
		case *SliceV:
			if x.Obj == 0 {
				return one(st, intConst(0))
			}
			if name == "cap" {
				if x.Cap == nil {
					a := newAtom(in.freshName("cap"), 64, true)
					a.Lo, a.Hi = 0, 1<<40
					st.assumeGE(linSub(linAtom(a), x.Len))
					return one(st, intLin(linAtom(a)))
				}
				return one(st, intLin(st.resolveLin(x.Cap)))
			}
			return one(st, intLin(st.resolveLin(x.Len)))
		case *ArrayV:
			return one(st, intLin(seqLen(x.S)))
		case *MapV:
			if x.Obj == 0 {
				return one(st, intConst(0))
			}
			if m, ok := in.object(st, x.Obj).(*MapObj); ok && m.Sym == "" {
				return one(st, intConst(int64(len(m.E))))
			} else if ok {
				a := internAtom("maplen:"+m.Sym+fmt.Sprint(len(m.E)), 64, true, func(a *Atom) { a.Lo, a.Hi = 0, 1<<40 })
				return one(st, intLin(linAtom(a)))
			}
		case *PtrV:
			if t, ok := c.Args[0].Type().Underlying().(*types.Pointer); ok {
				if a, ok := t.Elem().Underlying().(*types.Array); ok {
					return one(st, intConst(a.Len()))
				}
			}
		}
		a := newAtom(in.freshName("len"), 64, true)
		a.Lo, a.Hi = 0, 1<<40
		return one(st, intLin(linAtom(a)))
	case "append":
		return in.appendTo(st, c, args)
	case "copy":
		return in.copyTo(st, args)
	case "delete":
		if m, ok := args[0].(*MapV); ok && m.Obj != 0 {
			if o, ok := in.object(st, m.Obj).(*MapObj); ok {
				n := *o
				n.E = nil
				certain := false
				for _, e := range o.E {
					switch st.evalCond(in.eqCond(st, e.K, args[1])) {
					case 1:
						certain = true
						continue
					case -1:
						// may be removed
						st.set(m.Obj, &MapObj{Sym: in.freshName("map"), KT: o.KT, VT: o.VT})
						return one(st, &TupleV{})
					}
					n.E = append(n.E, e)
				}
				_ = certain
				if o.Sym != "" {
					n.E = append(n.E, MapEntry{K: args[1], Del: true})
				}
				st.set(m.Obj, &n)
			}
		}
		return one(st, &TupleV{})
	case "min", "max":
		cur := []callRes{{st, args[0]}}
		for _, a := range args[1:] {
			var nx []callRes
			for _, r := range cur {
				x, ok1 := r.val.(*Num)
				y, ok2 := a.(*Num)
				if !ok1 || !ok2 {
					nx = append(nx, callRes{r.st, in.symVal(r.st, c.Args[0].Type(), in.freshName(name))})
					continue
				}
				cond := cmpCond("<=", x, y)
				if name == "max" {
					cond = cmpCond(">=", x, y)
				}
				switch r.st.evalCond(cond) {
				case 1:
					nx = append(nx, callRes{r.st, x})
				case 0:
					nx = append(nx, callRes{r.st, y})
				default:
					s := r.st.clone()
					s.assume(cond, true)
					r.st.assume(cond, false)
					nx = append(nx, callRes{s, x}, callRes{r.st, y})
				}
			}
			cur = nx
		}
		return cur
	case "recover":
		return one(st, &NilIface{})
	case "close":
		if !in.closeChan(st, instr, args[0]) {
			return in.kill(st)
		}
		return one(st, tup())
	case "print", "println":
		return one(st, &TupleV{})
	case "ssa:wrapnilchk":
		p := in.deref(st, instr, args[0], c.Args[0].Type())
		if p == nil {
			return nil
		}
		return one(st, args[0])
	case "clear":
		if m, ok := args[0].(*MapV); ok && m.Obj != 0 {
			if o, ok := in.object(st, m.Obj).(*MapObj); ok {
				st.set(m.Obj, &MapObj{KT: o.KT, VT: o.VT})
			}
			return one(st, &TupleV{})
		}
	}
	return in.havocCall(st, "builtin:"+name, c.Signature(), args)
}

func (in *Interp) bytesOf(st *State, v Val) ([]Seg, bool) {
	switch x := v.(type) {
	case *SliceV:
		return in.sliceSegs(st, x), true
	case *StrV:
		return strToElems(in.normSegs(st, x.S)), true
	case *NilV:
		return nil, true
	}
	return nil, false
}

func (in *Interp) appendTo(st *State, c *ssa.CallCommon, args []Val) []callRes {
	s, ok := args[0].(*SliceV)
	var el types.Type
	if t, ok := c.Args[0].Type().Underlying().(*types.Slice); ok {
		el = t.Elem()
	}
	if !ok {
		if _, isnil := args[0].(*NilV); !isnil {
			return one(st, in.symVal(st, c.Args[0].Type(), in.freshName("append")))
		}
		s = &SliceV{Off: linConst(0), Len: linConst(0), Cap: linConst(0), Elem: el}
	}
	if len(args) == 1 {
		return one(st, s)
	}
	add, ok := in.bytesOf(st, args[1])
	if !ok {
		r := newSeqAtom(in.freshName("append"), el)
		add = []Seg{&SegSpan{r, linConst(0), r.Len.L}}
	}
	add = in.normSegs(st, add)
	n := seqLen(add)
	if len(add) == 0 {
		return one(st, s)
	}
	cur := in.sliceSegs(st, s)
	if s.Obj != 0 && s.Cap == nil {
		// unknown capacity: at least what the backing array is known to hold
		if o, ok := st.get(s.Obj).(*SeqV); ok {
			ext := linSub(seqLen(o.S), s.Off)
			if !st.proveEQ(linSub(ext, s.Len)) {
				t := *s
				t.Cap = ext
				s = &t
			}
		}
	}
	if s.Obj != 0 && s.Cap != nil && !st.proveEQ(linSub(s.Cap, s.Len)) {
		// there may be room in the backing array
		room := linSub(linSub(s.Cap, s.Len), n)
		if st.proveGE(room) {
			return one(st, in.appendInPlace(st, s, add, n))
		}
		if !st.proveGE(linAddK(linScale(room, -1), 1, linConst(-1))) {
			t := st.clone()
			t.assumeGE(room)
			st.assumeGE(linAddK(linScale(room, -1), 1, linConst(-1)))
			var out []callRes
			if !t.dead {
				out = append(out, callRes{t, in.appendInPlace(t, s, add, n)})
			}
			if !st.dead {
				r := in.newSlice(st, append(append([]Seg{}, cur...), add...), el)
				r.Cap = nil
				out = append(out, callRes{st, r})
			}
			return out
		}
	}
	segs := append(append([]Seg{}, cur...), add...)
	r := in.newSlice(st, in.joinSegs(st, segs), el)
	r.Cap = nil
	if s.Obj != 0 && s.Cap == nil {
		// a second append to the same grown slice may overwrite the tail of the first result
		key := fmt.Sprintf("tail:%d:%s", s.Obj, st.resolveLin(linAdd(s.Off, s.Len)).key())
		if g, ok := st.ghost[key]; ok {
			prev := g.(*SliceV)
			if o, ok := st.get(prev.Obj).(*SeqV); ok {
				ra := newSeqAtom(in.freshName("aliased"), el)
				keep, ok := in.seqSub(st, o.S, linConst(0), linAdd(s.Off, s.Len))
				rest := linSub(seqLen(o.S), s.Len)
				if ok {
					st.set(prev.Obj, &SeqV{append(append([]Seg{}, keep...), &SegSpan{ra, linConst(0), rest})})
				}
				st.notes["alias"] = true
			}
		}
		st.ghost[key] = r
	}
	return one(st, r)
}

// joinSegs merges adjacent spans without expanding
func (in *Interp) joinSegs(st *State, segs []Seg) []Seg {
	var out []Seg
	for _, g := range segs {
		if len(out) > 0 {
			if a, ok := out[len(out)-1].(*SegSpan); ok {
				if b, ok := g.(*SegSpan); ok && a.R == b.R && st.proveEQ(linSub(linAdd(a.Off, a.N), b.Off)) {
					out[len(out)-1] = &SegSpan{a.R, a.Off, linAdd(a.N, b.N)}
					continue
				}
			}
		}
		out = append(out, g)
	}
	return out
}

func (in *Interp) appendInPlace(st *State, s *SliceV, add []Seg, n *Lin) Val {
	at := st.resolveLin(linAdd(s.Off, s.Len))
	in.overwrite(st, s.Obj, at, add, n, s.Elem)
	r := *s
	r.Len = st.resolveLin(linAdd(s.Len, n))
	return &r
}

// overwrite replaces [at, at+n) of a backing array
func (in *Interp) overwrite(st *State, obj int, at *Lin, add []Seg, n *Lin, el types.Type) {
	var segs []Seg
	arr, isArr := st.get(obj).(*ArrayV)
	if isArr {
		segs = arr.S
	} else if q, ok := st.get(obj).(*SeqV); ok {
		segs = q.S
	} else {
		return
	}
	var res []Seg
	a, b, ok := in.splitAt(st, segs, at)
	if ok {
		var rest []Seg
		_, rest, ok = in.splitAt(st, b, n)
		if ok {
			res = append(append(append([]Seg{}, a...), add...), rest...)
		}
	}
	if !ok {
		r := newSeqAtom(in.freshName("over"), el)
		res = []Seg{&SegSpan{r, linConst(0), seqLen(segs)}}
	}
	if in.onStore != nil {
		in.onStore(st, nil, &PtrV{Obj: obj})
	}
	if isArr {
		st.set(obj, &ArrayV{res, arr.Elem})
	} else {
		st.set(obj, &SeqV{res})
	}
}

func (in *Interp) copyTo(st *State, args []Val) []callRes {
	d, ok := args[0].(*SliceV)
	src, ok2 := in.bytesOf(st, args[1])
	if !ok || !ok2 {
		return one(st, intLin(linAtom(newAtom(in.freshName("copied"), 64, true))))
	}
	n := st.resolveLin(seqLen(src))
	dn := d.lenLin()
	do := func(s *State, k *Lin) callRes {
		sub, ok := in.seqSub(s, src, linConst(0), k)
		if !ok {
			r := newSeqAtom(in.freshName("copy"), d.Elem)
			sub = []Seg{&SegSpan{r, linConst(0), k}}
		}
		if d.Obj != 0 {
			in.overwrite(s, d.Obj, d.Off, sub, k, d.Elem)
		}
		return callRes{s, intLin(k)}
	}
	c := geCond(linSub(dn, n))
	switch st.evalCond(c) {
	case 1:
		return []callRes{do(st, n)}
	case 0:
		return []callRes{do(st, dn)}
	}
	t := st.clone()
	t.assume(c, true)
	st.assume(c, false)
	var out []callRes
	if !t.dead {
		out = append(out, do(t, n))
	}
	if !st.dead {
		out = append(out, do(st, dn))
	}
	return out
}
