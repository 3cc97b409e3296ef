package main

// encoding/json, modelled on structure: a marshalled value is a byte sequence whose root carries the JSON tree, and
// unmarshalling walks that tree along the destination type. A document about which nothing is known ("any") supplies
// an unknown value of the type wherever one is asked for.

import (
	"encoding/json"
	"fmt"
	"go/types"
	"reflect"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type JNode struct {
	Kind string // obj, arr (elements in Segs), list (Kids), num, str, bool, null, opaque, any, anylist
	Keys []string
	Kids []*JNode
	Num  *Num
	Str  []Seg
	B    *Cond
	Segs []Seg
	Elem types.Type
	V    Val
	Path string
}

type jenc struct {
	st   *State
	node *JNode
	err  Val
}

type jdec struct {
	st  *State
	val Val
	err Val
}

func (in *Interp) jsonBytes(st *State, n *JNode) *SliceV {
	name := "json text"
	if n.Kind == "any" {
		name = n.Path
		r := internSeq("jsonroot:"+n.Path, byteT, func(r *SeqAtom) { r.Name = name })
		r.JSON = n
		r.Len.L.T[0].A.Lo = 1
		return in.newSlice(st, []Seg{&SegSpan{r, linConst(0), r.Len.L}}, byteT)
	}
	r := newSeqAtom(in.freshName(name), byteT)
	r.JSON = n
	r.Len.L.T[0].A.Lo = 1
	return in.newSlice(st, []Seg{&SegSpan{r, linConst(0), r.Len.L}}, byteT)
}

// nodeOf: the tree behind a byte sequence
func (in *Interp) nodeOf(st *State, segs []Seg) (*JNode, bool) {
	segs = in.trimEmpty(st, in.normSegs(st, segs))
	for len(segs) > 1 {
		// surrounding white space
		if l, ok := segs[len(segs)-1].(*SegLit); ok && strings.TrimSpace(l.S) == "" {
			segs = segs[:len(segs)-1]
			continue
		}
		if l, ok := segs[len(segs)-1].(*SegElem); ok {
			if n, ok := l.V.(*Num); ok {
				if c, ok := n.constVal(); ok && (c == 10 || c == 32 || c == 13 || c == 9) {
					segs = segs[:len(segs)-1]
					continue
				}
			}
		}
		break
	}
	if len(segs) == 1 {
		if s, ok := segs[0].(*SegSpan); ok && s.R.JSON != nil && st.proveEQ(s.Off) && st.proveEQ(linSub(s.N, s.R.Len.L)) {
			return s.R.JSON, true
		}
	}
	if l, ok := (&StrV{segs}).lit(); ok {
		if n, ok := parseJSON(l); ok {
			return n, true
		}
		return &JNode{Kind: "invalid"}, true
	}
	return nil, false
}

func parseJSON(s string) (*JNode, bool) {
	d := json.NewDecoder(strings.NewReader(s))
	d.UseNumber()
	var val func() (*JNode, bool)
	val = func() (*JNode, bool) {
		t, err := d.Token()
		if err != nil {
			return nil, false
		}
		switch x := t.(type) {
		case json.Delim:
			switch x {
			case '{':
				n := &JNode{Kind: "obj"}
				for d.More() {
					k, err := d.Token()
					if err != nil {
						return nil, false
					}
					v, ok := val()
					if !ok {
						return nil, false
					}
					n.Keys = append(n.Keys, k.(string))
					n.Kids = append(n.Kids, v)
				}
				_, err := d.Token()
				return n, err == nil
			case '[':
				n := &JNode{Kind: "list"}
				for d.More() {
					v, ok := val()
					if !ok {
						return nil, false
					}
					n.Kids = append(n.Kids, v)
				}
				_, err := d.Token()
				return n, err == nil
			}
		case string:
			return &JNode{Kind: "str", Str: strLit(x).S}, true
		case bool:
			return &JNode{Kind: "bool", B: &Cond{Kind: 'c', C: x}}, true
		case nil:
			return &JNode{Kind: "null"}, true
		case json.Number:
			if i, err := x.Int64(); err == nil {
				return &JNode{Kind: "num", Num: intConst(i)}, true
			}
			return &JNode{Kind: "float"}, true
		}
		return nil, false
	}
	n, ok := val()
	if !ok || d.More() {
		return nil, false
	}
	return n, true
}

type jfield struct {
	name  string
	index []int
	omit  bool
	typ   types.Type
}

func jsonFields(t *types.Struct) ([]jfield, bool) {
	var out []jfield
	for i := 0; i < t.NumFields(); i++ {
		f := t.Field(i)
		tag := reflect.StructTag(t.Tag(i)).Get("json")
		if tag == "-" {
			continue
		}
		parts := strings.Split(tag, ",")
		if f.Embedded() && parts[0] == "" {
			u, ok := f.Type().Underlying().(*types.Struct)
			if !ok {
				return nil, false
			}
			sub, ok := jsonFields(u)
			if !ok {
				return nil, false
			}
			for _, s := range sub {
				s.index = append([]int{i}, s.index...)
				out = append(out, s)
			}
			continue
		}
		if !f.Exported() {
			continue
		}
		jf := jfield{name: f.Name(), index: []int{i}, typ: f.Type()}
		if parts[0] != "" {
			jf.name = parts[0]
		}
		for _, p := range parts[1:] {
			switch p {
			case "omitempty":
				jf.omit = true
			case "":
			default:
				return nil, false
			}
		}
		out = append(out, jf)
	}
	// an outer field hides an embedded one of the same name
	best := map[string]int{}
	for _, f := range out {
		if b, ok := best[f.name]; !ok || len(f.index) < b {
			best[f.name] = len(f.index)
		}
	}
	var r []jfield
	for _, f := range out {
		if best[f.name] == len(f.index) {
			r = append(r, f)
		}
	}
	return r, true
}

func getIndex(v Val, index []int) (Val, bool) {
	for _, i := range index {
		s, ok := v.(*StructV)
		if !ok || i >= len(s.F) {
			return nil, false
		}
		v = s.F[i]
	}
	return v, true
}

func setIndex(v Val, index []int, x Val) Val {
	if len(index) == 0 {
		return x
	}
	s := v.(*StructV)
	f := append([]Val{}, s.F...)
	f[index[0]] = setIndex(f[index[0]], index[1:], x)
	return &StructV{s.T, f}
}

func isRaw(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false
	}
	name := n.Obj().Pkg().Path() + "." + n.Obj().Name()
	return name == "encoding/json.RawMessage" || name == "encoding/json/jsontext.Value"
}

// jsonMethod: the (un)marshalling method of a type, if any; addr: the value is addressable
func (in *Interp) jsonMethod(t types.Type, name string, addr bool) *ssa.Function {
	fn := in.P.methodOf(t, name)
	if fn == nil && addr {
		if _, isP := t.(*types.Pointer); !isP {
			fn = in.P.methodOf(types.NewPointer(t), name)
		}
	}
	if fn == nil {
		return nil
	}
	s := fn.Signature
	switch name {
	case "MarshalJSON", "MarshalText":
		if s.Params().Len() != 0 || s.Results().Len() != 2 {
			return nil
		}
	default:
		if s.Params().Len() != 1 || s.Results().Len() != 1 {
			return nil
		}
	}
	return fn
}

type jsonGiveUp struct{ why string }

func (c *callCtx) jcall(st *State, fn *ssa.Function, recv Val, t types.Type, args ...Val) []callRes {
	r := recv
	if sr := fn.Signature.Recv(); sr != nil {
		if _, isP := sr.Type().(*types.Pointer); isP {
			if _, ok := recv.(*PtrV); !ok {
				r = &PtrV{Obj: st.alloc(recv)}
			}
		}
	}
	return c.in.callFn(st, c.instr, fn, append([]Val{r}, args...), nil)
}

// encode gives the JSON tree of a value
func (c *callCtx) jencode(st *State, t types.Type, v Val, addr bool) []jenc {
	in := c.in
	ok := func(n *JNode) []jenc { return []jenc{{st, n, nil}} }
	if isRaw(t) {
		s, isS := v.(*SliceV)
		if !isS {
			panic(jsonGiveUp{"raw message"})
		}
		n, found := in.nodeOf(st, in.sliceSegs(st, s))
		if !found {
			panic(jsonGiveUp{"raw message"})
		}
		return ok(n)
	}
	if pt, isP := t.Underlying().(*types.Pointer); isP {
		p, isPV := v.(*PtrV)
		if !isPV {
			panic(jsonGiveUp{"pointer"})
		}
		cond := in.isNilCond(st, p)
		switch st.evalCond(cond) {
		case 1:
			return ok(&JNode{Kind: "null"})
		case -1:
			s := st.clone()
			s.assume(cond, true)
			st.assume(cond, false)
			out := []jenc{{s, &JNode{Kind: "null"}, nil}}
			return append(out, c.jencode(st, t, &PtrV{Obj: p.Obj, Path: p.Path}, addr)...)
		}
		if fn := in.jsonMethod(t, "MarshalJSON", false); fn == nil {
			return c.jencode(st, pt.Elem(), in.load(st, p, pt.Elem()), true)
		}
	}
	if _, isI := t.Underlying().(*types.Interface); isI {
		switch x := v.(type) {
		case *IfaceV:
			return c.jencode(st, x.T, x.V, false)
		case *NilIface:
			return ok(&JNode{Kind: "null"})
		}
		panic(jsonGiveUp{"interface value"})
	}
	if fn := in.jsonMethod(t, "MarshalJSON", addr); fn != nil {
		var out []jenc
		for _, r := range c.jcall(st, fn, v, t) {
			if r.st.dead {
				continue
			}
			tv, isT := r.val.(*TupleV)
			if !isT {
				panic(jsonGiveUp{"MarshalJSON result"})
			}
			switch in.errNil(r.st, tv.V[1]) {
			case 0:
				out = append(out, jenc{r.st, nil, in.newErr("json: error calling MarshalJSON")})
				continue
			case -1:
				panic(jsonGiveUp{"MarshalJSON error"})
			}
			s, isS := tv.V[0].(*SliceV)
			if !isS {
				panic(jsonGiveUp{"MarshalJSON result"})
			}
			n, found := in.nodeOf(r.st, in.sliceSegs(r.st, s))
			if !found {
				panic(jsonGiveUp{"MarshalJSON text of " + t.String()})
			}
			if n.Kind == "invalid" {
				out = append(out, jenc{r.st, nil, in.newErr("json: invalid text from MarshalJSON")})
				continue
			}
			out = append(out, jenc{r.st, n, nil})
		}
		return out
	}
	if fn := in.jsonMethod(t, "MarshalText", addr); fn != nil {
		var out []jenc
		for _, r := range c.jcall(st, fn, v, t) {
			if r.st.dead {
				continue
			}
			tv, isT := r.val.(*TupleV)
			if !isT || in.errNil(r.st, tv.V[1]) == -1 {
				panic(jsonGiveUp{"MarshalText result"})
			}
			if in.errNil(r.st, tv.V[1]) == 0 {
				out = append(out, jenc{r.st, nil, in.newErr("json: error calling MarshalText")})
				continue
			}
			out = append(out, jenc{r.st, &JNode{Kind: "str", Str: in.sliceSegs(r.st, tv.V[0].(*SliceV))}, nil})
		}
		return out
	}
	if _, _, isN := numType(t); isN {
		n, isNum := v.(*Num)
		if !isNum {
			panic(jsonGiveUp{"number"})
		}
		return ok(&JNode{Kind: "num", Num: n})
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsBoolean != 0 {
			return ok(&JNode{Kind: "bool", B: in.boolOf(st, v)})
		}
		if s, isS := v.(*StrV); isS {
			return ok(&JNode{Kind: "str", Str: in.normSegs(st, s.S)})
		}
		return ok(&JNode{Kind: "opaque", V: v, Elem: t})
	case *types.Struct:
		if modelledStruct(t) != "" {
			panic(jsonGiveUp{t.String()})
		}
		s, isS := v.(*StructV)
		fields, okf := jsonFields(u)
		if !isS || !okf {
			panic(jsonGiveUp{"struct " + t.String()})
		}
		cur := []jenc{{st, &JNode{Kind: "obj"}, nil}}
		for _, f := range fields {
			fv, found := getIndex(s, f.index)
			if !found {
				panic(jsonGiveUp{"field " + f.name})
			}
			var nx []jenc
			for _, x := range cur {
				if x.err != nil {
					nx = append(nx, x)
					continue
				}
				states := []*State{x.st}
				if f.omit {
					cond := c.jempty(x.st, fv)
					switch x.st.evalCond(cond) {
					case 1:
						nx = append(nx, x)
						continue
					case -1:
						e := x.st.clone()
						e.assume(cond, true)
						x.st.assume(cond, false)
						if !e.dead {
							nx = append(nx, jenc{e, x.node, nil})
						}
						if x.st.dead {
							states = nil
						}
					}
				}
				for _, s := range states {
					for _, y := range c.jencode(s, f.typ, fv, addr) {
						if y.err != nil {
							nx = append(nx, y)
							continue
						}
						n := &JNode{Kind: "obj", Keys: append(append([]string{}, x.node.Keys...), f.name), Kids: append(append([]*JNode{}, x.node.Kids...), y.node)}
						nx = append(nx, jenc{y.st, n, nil})
					}
				}
			}
			cur = nx
		}
		return cur
	case *types.Slice, *types.Array:
		var segs []Seg
		var et types.Type
		switch y := v.(type) {
		case *SliceV:
			cond := in.isNilCond(st, y)
			switch st.evalCond(cond) {
			case 1:
				return ok(&JNode{Kind: "null"})
			case -1:
				s := st.clone()
				s.assume(cond, true)
				st.assume(cond, false)
				z := *y
				z.NilPred = ""
				out := []jenc{{s, &JNode{Kind: "null"}, nil}}
				return append(out, c.jencode(st, t, &z, addr)...)
			}
			segs, et = in.sliceSegs(st, y), y.Elem
		case *ArrayV:
			segs, et = y.S, y.Elem
		default:
			panic(jsonGiveUp{"slice"})
		}
		if _, isSl := u.(*types.Slice); isSl {
			if w, sg, isN := numType(et); isN && w == 8 && !sg {
				return ok(&JNode{Kind: "opaque", V: &SeqV{segs}, Elem: t}) // base64
			}
		}
		segs = in.trimEmpty(st, in.normSegs(st, segs))
		if _, _, isN := numType(et); isN {
			return ok(&JNode{Kind: "arr", Segs: segs, Elem: et})
		}
		cur := []jenc{{st, &JNode{Kind: "list"}, nil}}
		for _, g := range segs {
			e, isE := g.(*SegElem)
			if !isE {
				panic(jsonGiveUp{"list of unknown length"})
			}
			var nx []jenc
			for _, x := range cur {
				if x.err != nil {
					nx = append(nx, x)
					continue
				}
				for _, y := range c.jencode(x.st, et, e.V, true) {
					if y.err == nil {
						y.node = &JNode{Kind: "list", Kids: append(append([]*JNode{}, x.node.Kids...), y.node)}
					}
					nx = append(nx, y)
				}
			}
			cur = nx
		}
		return cur
	}
	panic(jsonGiveUp{"type " + t.String()})
}

func (c *callCtx) jempty(st *State, v Val) *Cond {
	switch x := v.(type) {
	case *Num:
		return &Cond{Kind: 'e', L: x.L}
	case *StrV:
		return &Cond{Kind: 'e', L: seqLen(x.S)}
	case *SliceV:
		return &Cond{Kind: 'e', L: x.lenLin()}
	case *BoolV:
		return condNot(x.C)
	case *PtrV, *IfaceV, *NilIface, *OpaqueV:
		return c.in.isNilCond(st, v)
	}
	return &Cond{Kind: 'c', C: false}
}

// decode stores the tree in a destination of the type that holds cur; it gives the new value of the destination
func (c *callCtx) jdecode(st *State, n *JNode, t types.Type, cur Val, strict bool) []jdec {
	in := c.in
	ok := func(v Val) []jdec { return []jdec{{st, v, nil}} }
	bad := func(v Val) []jdec { return []jdec{{st, v, in.newErr("json: cannot unmarshal")}} }
	if n.Kind == "invalid" {
		return []jdec{{st, cur, in.newErr("json: syntax")}}
	}
	if isRaw(t) {
		return ok(in.jsonBytes(st, n))
	}
	if pt, isP := t.Underlying().(*types.Pointer); isP {
		if n.Kind == "null" {
			return ok(&PtrV{})
		}
		states := []*State{st}
		var out []jdec
		if n.Kind == "any" {
			cond := &Cond{Kind: 'p', P: "in." + n.Path + " is absent or null"}
			switch st.evalCond(cond) {
			case 1:
				return ok(cur)
			case -1:
				s := st.clone()
				s.assume(cond, true)
				st.assume(cond, false)
				out = append(out, jdec{s, cur, nil})
			}
		}
		for _, s := range states {
			p, isPV := cur.(*PtrV)
			if !isPV || p.Obj == 0 || p.NilPred != "" {
				p = &PtrV{Obj: s.alloc(in.zero(s, pt.Elem()))}
			}
			for _, y := range c.jdecode(s, n, pt.Elem(), in.load(s, p, pt.Elem()), strict) {
				in.store(y.st, p, y.val)
				out = append(out, jdec{y.st, p, y.err})
			}
		}
		return out
	}
	if fn := in.jsonMethod(t, "UnmarshalJSON", true); fn != nil {
		var out []jdec
		p := &PtrV{Obj: st.alloc(cur)}
		for _, r := range c.jcall(st, fn, p, t, in.jsonBytes(st, n)) {
			if r.st.dead {
				continue
			}
			v := in.load(r.st, p, t)
			switch in.errNil(r.st, r.val) {
			case 1:
				out = append(out, jdec{r.st, v, nil})
			case 0:
				out = append(out, jdec{r.st, v, r.val})
			default:
				panic(jsonGiveUp{"UnmarshalJSON error"})
			}
		}
		return out
	}
	if fn := in.jsonMethod(t, "UnmarshalText", true); fn != nil {
		var text []Seg
		switch n.Kind {
		case "str":
			text = n.Str
		case "any":
			text = in.anyStr(st, n.Path).S
		case "null":
			return ok(cur)
		default:
			return bad(cur)
		}
		var out []jdec
		p := &PtrV{Obj: st.alloc(cur)}
		for _, r := range c.jcall(st, fn, p, t, in.newSlice(st, text, byteT)) {
			if r.st.dead {
				continue
			}
			switch in.errNil(r.st, r.val) {
			case 1:
				out = append(out, jdec{r.st, in.load(r.st, p, t), nil})
			case 0:
				out = append(out, jdec{r.st, in.load(r.st, p, t), r.val})
			default:
				panic(jsonGiveUp{"UnmarshalText error"})
			}
		}
		return out
	}
	if n.Kind == "any" {
		return c.janyDecode(st, n, t, cur, strict)
	}
	if n.Kind == "null" {
		switch t.Underlying().(type) {
		case *types.Slice, *types.Map, *types.Interface:
			return ok(in.zero(st, t))
		}
		return ok(cur)
	}
	if n.Kind == "opaque" {
		if types.Identical(n.Elem.Underlying(), t.Underlying()) {
			if q, isQ := n.V.(*SeqV); isQ {
				return ok(in.newSlice(st, q.S, byteT))
			}
			return ok(n.V)
		}
		panic(jsonGiveUp{"opaque value"})
	}
	if w, sg, isN := numType(t); isN {
		if n.Kind == "float" {
			return bad(cur)
		}
		if n.Kind != "num" {
			return bad(cur)
		}
		return c.jint(st, n.Num, w, sg, cur)
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsBoolean != 0 {
			if n.Kind != "bool" {
				return bad(cur)
			}
			return ok(&BoolV{n.B})
		}
		if u.Info()&types.IsString != 0 {
			if n.Kind != "str" {
				return bad(cur)
			}
			return ok(&StrV{n.Str})
		}
	case *types.Struct:
		if modelledStruct(t) != "" {
			panic(jsonGiveUp{t.String()})
		}
		if n.Kind != "obj" {
			return bad(cur)
		}
		fields, okf := jsonFields(u)
		if _, isS := cur.(*StructV); !isS || !okf {
			panic(jsonGiveUp{"struct " + t.String()})
		}
		list := []jdec{{st, cur, nil}}
		for i, key := range n.Keys {
			f := -1
			for j := range fields {
				if fields[j].name == key {
					f = j
				}
			}
			if f < 0 {
				for j := range fields {
					if strings.EqualFold(fields[j].name, key) {
						f = j
						break
					}
				}
			}
			if f < 0 {
				if strict {
					for j := range list {
						if list[j].err == nil {
							list[j].err = in.newErr("json: unknown field")
						}
					}
				}
				continue
			}
			var nx []jdec
			for _, x := range list {
				if x.err != nil {
					nx = append(nx, x)
					continue
				}
				fv, found := getIndex(x.val, fields[f].index)
				if !found {
					panic(jsonGiveUp{"field " + key})
				}
				for _, y := range c.jdecode(x.st, n.Kids[i], fields[f].typ, fv, strict) {
					nx = append(nx, jdec{y.st, setIndex(x.val, fields[f].index, y.val), y.err})
				}
			}
			list = nx
		}
		return list
	case *types.Slice:
		switch n.Kind {
		case "arr":
			w, sg, isN := numType(u.Elem())
			if !isN {
				if len(n.Segs) == 0 {
					return ok(in.newSlice(st, nil, u.Elem()))
				}
				return bad(cur)
			}
			fw, fsg, _ := numType(n.Elem)
			lo, hi := typeRange(w, sg)
			flo, fhi := typeRange(fw, fsg)
			if w == fw && sg == fsg || flo >= lo && fhi <= hi {
				segs := n.Segs
				if w != fw || sg != fsg {
					var ok2 bool
					if segs, ok2 = c.jconv(st, segs, w, sg); !ok2 {
						panic(jsonGiveUp{"array conversion"})
					}
				}
				return ok(in.newSlice(st, segs, u.Elem()))
			}
			// narrower elements: each has to fit
			list := []jdec{{st, &SeqV{}, nil}}
			for _, g := range n.Segs {
				e, isE := g.(*SegElem)
				if !isE {
					s, isSp := g.(*SegSpan)
					if isSp {
						if segs, fits := c.jfits(st, s, lo, hi, w, sg); fits {
							for i := range list {
								list[i].val = &SeqV{append(append([]Seg{}, list[i].val.(*SeqV).S...), segs...)}
							}
							continue
						}
					}
					if cp, isC := g.(*SegComp); isC && len(cp.El) == 1 {
						if nm, isNum := cp.El[0].(*Num); isNum {
							a, b := st.rangeLin(nm.L)
							if a >= lo && b <= hi {
								segs, ok2 := c.jconv(st, []Seg{cp}, w, sg)
								if ok2 {
									for i := range list {
										list[i].val = &SeqV{append(append([]Seg{}, list[i].val.(*SeqV).S...), segs...)}
									}
									continue
								}
							}
						}
					}
					panic(jsonGiveUp{"array element range"})
				}
				var nx []jdec
				for _, x := range list {
					if x.err != nil {
						nx = append(nx, x)
						continue
					}
					for _, y := range c.jint(x.st, e.V.(*Num), w, sg, numConst(0, w, sg)) {
						nx = append(nx, jdec{y.st, &SeqV{append(append([]Seg{}, x.val.(*SeqV).S...), &SegElem{y.val})}, y.err})
					}
				}
				list = nx
			}
			for i := range list {
				list[i].val = in.newSlice(list[i].st, list[i].val.(*SeqV).S, u.Elem())
			}
			return list
		case "list":
			list := []jdec{{st, &SeqV{}, nil}}
			for _, kid := range n.Kids {
				var nx []jdec
				for _, x := range list {
					if x.err != nil {
						nx = append(nx, x)
						continue
					}
					for _, y := range c.jdecode(x.st, kid, u.Elem(), in.zero(x.st, u.Elem()), strict) {
						nx = append(nx, jdec{y.st, &SeqV{append(append([]Seg{}, x.val.(*SeqV).S...), &SegElem{y.val})}, y.err})
					}
				}
				list = nx
			}
			for i := range list {
				list[i].val = in.newSlice(list[i].st, list[i].val.(*SeqV).S, u.Elem())
			}
			return list
		case "str":
			if w, _, isN := numType(u.Elem()); isN && w == 8 {
				panic(jsonGiveUp{"base64"})
			}
		}
		return bad(cur)
	}
	panic(jsonGiveUp{"destination " + t.String()})
}

func (c *callCtx) jconv(st *State, segs []Seg, w int, sg bool) ([]Seg, bool) {
	et := types.Typ[map[bool]map[int]types.BasicKind{false: {8: types.Uint8, 16: types.Uint16, 32: types.Uint32, 64: types.Uint64}, true: {8: types.Int8, 16: types.Int16, 32: types.Int32, 64: types.Int64}}[sg][w]]
	var out []Seg
	for _, g := range segs {
		switch x := g.(type) {
		case *SegElem:
			out = append(out, &SegElem{numConv(st, x.V.(*Num), w, sg)})
		case *SegComp:
			var el []Val
			for _, e := range x.El {
				nm, isN := e.(*Num)
				if !isN {
					return nil, false
				}
				el = append(el, numConv(st, nm, w, sg))
			}
			y := *x
			y.El, y.Elem = el, et
			out = append(out, &y)
		case *SegSpan:
			k := newAtom(c.in.freshName("iter"), 64, true)
			e := c.in.spanElem(st, x.R, linAtom(k))
			nm, isN := e.(*Num)
			if !isN {
				return nil, false
			}
			out = append(out, &SegComp{K: k, El: []Val{numConv(st, nm, w, sg)}, Off: x.Off, N: x.N, Elem: et})
		default:
			return nil, false
		}
	}
	return out, true
}

func (c *callCtx) jfits(st *State, s *SegSpan, lo, hi int64, w int, sg bool) ([]Seg, bool) {
	ew, esg, isN := numType(s.R.Elem)
	if !isN {
		return nil, false
	}
	a, b := typeRange(ew, esg)
	if a < lo || b > hi {
		return nil, false
	}
	return c.jconv(st, []Seg{s}, w, sg)
}

// jint stores an integer in a destination of w bits
func (c *callCtx) jint(st *State, n *Num, w int, sg bool, cur Val) []jdec {
	in := c.in
	lo, hi := typeRange(w, sg)
	flo, fhi := typeRange(n.W, n.Signed)
	if flo >= lo && fhi <= hi {
		return []jdec{{st, numConv(st, n, w, sg), nil}}
	}
	var conds []*Cond
	if flo < lo {
		conds = append(conds, geCond(linAddK(n.L, 1, linConst(-lo))))
	}
	if fhi > hi {
		conds = append(conds, geCond(linAddK(linScale(n.L, -1), 1, linConst(hi))))
	}
	cond := conds[0]
	if len(conds) == 2 {
		cond = &Cond{Kind: 'a', Sub: conds}
	}
	yes := func(s *State) jdec { return jdec{s, numConv(s, s.resolve(n), w, sg), nil} }
	no := func(s *State) jdec { return jdec{s, cur, in.newErr("json: number out of range")} }
	switch st.evalCond(cond) {
	case 1:
		return []jdec{yes(st)}
	case 0:
		return []jdec{no(st)}
	}
	s := st.clone()
	s.assume(cond, true)
	st.assume(cond, false)
	var out []jdec
	if !s.dead {
		out = append(out, yes(s))
	}
	if !st.dead {
		out = append(out, no(st))
	}
	return out
}

// ---- documents about which nothing is known

func (in *Interp) anyStr(st *State, path string) *StrV {
	r := internSeq("jsonstr:"+path, byteT, func(r *SeqAtom) { r.Name = path })
	v := wholeStr(r)
	st.ghost["json:"+path] = v
	return v
}

// anyVal: what an unknown document yields for a type, as far as that takes no decision
func (in *Interp) anyVal(st *State, path string, t types.Type) (Val, bool) {
	if isRaw(t) {
		return in.jsonBytes(st, &JNode{Kind: "any", Path: path}), true
	}
	if in.jsonMethod(t, "UnmarshalJSON", true) != nil || in.jsonMethod(t, "UnmarshalText", true) != nil {
		return nil, false
	}
	if w, sg, ok := numType(t); ok {
		a := internAtom(fmt.Sprintf("json:%s:%d:%v", path, w, sg), w, sg, func(a *Atom) { a.Name = path })
		v := numAtom(a, w, sg)
		st.ghost["json:"+path] = v
		return v, true
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsBoolean != 0 {
			v := predV("in." + path)
			st.ghost["json:"+path] = v
			return v, true
		}
		if u.Info()&types.IsString != 0 {
			return in.anyStr(st, path), true
		}
		return &OpaqueV{Key: path, T: t, NonNil: true}, true
	case *types.Struct:
		if modelledStruct(t) != "" {
			return nil, false
		}
		fields, ok := jsonFields(u)
		if !ok {
			return nil, false
		}
		v := in.zero(st, t)
		for _, f := range fields {
			x, ok := in.anyVal(st, path+"."+f.name, f.typ)
			if !ok {
				return nil, false
			}
			v = setIndex(v, f.index, x)
		}
		return v, true
	case *types.Pointer:
		x, ok := in.anyVal(st, path, u.Elem())
		if !ok {
			return nil, false
		}
		return &PtrV{Obj: st.alloc(x), NilPred: "in." + path + " is absent or null"}, true
	case *types.Slice:
		if in.jsonMethod(u.Elem(), "UnmarshalJSON", true) != nil && !isRaw(u.Elem()) {
			return nil, false
		}
		r := internSeq("jsonlist:"+path+":"+t.String(), u.Elem(), func(r *SeqAtom) { r.Name = path })
		r.JSON = &JNode{Kind: "anylist", Path: path}
		s := in.newSlice(st, []Seg{&SegSpan{r, linConst(0), r.Len.L}}, u.Elem())
		s.NilPred = "in." + path + " is absent or null"
		st.ghost["json:"+path] = s
		return s, true
	}
	return nil, false
}

func (c *callCtx) janyDecode(st *State, n *JNode, t types.Type, cur Val, strict bool) []jdec {
	in := c.in
	u, isS := t.Underlying().(*types.Struct)
	if !isS || modelledStruct(t) != "" {
		v, ok := in.anyVal(st, n.Path, t)
		if !ok {
			panic(jsonGiveUp{"unknown document as " + t.String()})
		}
		return []jdec{{st, v, nil}}
	}
	fields, ok := jsonFields(u)
	if _, isV := cur.(*StructV); !ok || !isV {
		panic(jsonGiveUp{"unknown document as " + t.String()})
	}
	list := []jdec{{st, cur, nil}}
	for _, f := range fields {
		kid := &JNode{Kind: "any", Path: n.Path + "." + f.name}
		var nx []jdec
		for _, x := range list {
			if x.err != nil {
				nx = append(nx, x)
				continue
			}
			if !isRaw(f.typ) {
				if v, ok := in.anyVal(x.st, kid.Path, f.typ); ok {
					nx = append(nx, jdec{x.st, setIndex(x.val, f.index, v), nil})
					continue
				}
			}
			// absent, or handed to the type's own method
			cond := &Cond{Kind: 'p', P: "in." + kid.Path + " is absent"}
			if tri := x.st.evalCond(cond); tri != 0 {
				s := x.st
				if tri < 0 {
					s = x.st.clone()
					s.assume(cond, true)
					x.st.assume(cond, false)
				}
				nx = append(nx, jdec{s, x.val, nil})
				if tri > 0 {
					continue
				}
			}
			fv, _ := getIndex(x.val, f.index)
			for _, y := range c.jdecode(x.st, kid, f.typ, fv, strict) {
				nx = append(nx, jdec{y.st, setIndex(x.val, f.index, y.val), y.err})
			}
		}
		list = nx
	}
	return list
}

// ---- the library functions

func (c *callCtx) junmarshal(segs []Seg, dst Val, strict bool) (res []callRes) {
	pt, pv := dyn(dst)
	p, ok := pv.(*PtrV)
	pty, isP := pt.(*types.Pointer)
	if !ok || !isP || p.Obj == 0 {
		return c.havoc()
	}
	n, found := c.in.nodeOf(c.st, segs)
	if !found {
		return c.havoc()
	}
	pre := c.st.clone()
	defer func() {
		if r := recover(); r != nil {
			g, is := r.(jsonGiveUp)
			if !is {
				panic(r)
			}
			c.in.unmod["json: "+g.why]++
			if verbose {
				println("json:", g.why)
			}
			*c.st = *pre
			res = c.havoc()
		}
	}()
	st := c.st
	if n.Kind == "any" {
		cond := &Cond{Kind: 'p', P: "in." + n.Path + " does not decode as " + types.TypeString(pty.Elem(), func(*types.Package) string { return "" })}
		bad := st.clone()
		bad.assume(cond, true)
		st.assume(cond, false)
		if !bad.dead {
			// some fields may have been stored before the error
			var v Val
			if a, ok := c.in.anyVal(bad, n.Path, pty.Elem()); ok {
				v = a
			} else {
				v = c.in.symVal(bad, pty.Elem(), "in."+n.Path+" (partly decoded)")
			}
			c.in.store(bad, p, v)
			res = append(res, callRes{bad, c.in.newErr("json: cannot unmarshal")})
		}
		if st.dead {
			return
		}
	}
	for _, d := range c.jdecode(st, n, pty.Elem(), c.in.load(st, p, pty.Elem()), strict) {
		if d.st.dead {
			continue
		}
		c.in.store(d.st, p, d.val)
		var e Val = noErr
		if d.err != nil {
			e = d.err
		}
		res = append(res, callRes{d.st, e})
	}
	return
}

func (c *callCtx) jmarshal(v Val) (res []jenc, ok bool) {
	pre := c.st.clone()
	defer func() {
		if r := recover(); r != nil {
			g, is := r.(jsonGiveUp)
			if !is {
				panic(r)
			}
			c.in.unmod["json: "+g.why]++
			if verbose {
				println("json:", g.why)
			}
			*c.st = *pre
			res, ok = nil, false
		}
	}()
	t, x := dyn(v)
	if t == nil {
		if _, isNil := v.(*NilIface); isNil {
			return []jenc{{c.st, &JNode{Kind: "null"}, nil}}, true
		}
		return nil, false
	}
	return c.jencode(c.st, t, x, false), true
}

func marshalModel(c *callCtx) []callRes {
	rs, ok := c.jmarshal(c.args[0])
	if !ok {
		return c.havoc()
	}
	var out []callRes
	for _, r := range rs {
		if r.st.dead {
			continue
		}
		r.st.ghost["marshalled"] = c.args[0]
		if r.err != nil {
			out = append(out, callRes{r.st, tup(&SliceV{Elem: byteT, Off: linConst(0), Len: linConst(0), Cap: linConst(0)}, r.err)})
		} else {
			out = append(out, callRes{r.st, tup(c.in.jsonBytes(r.st, r.node), noErr)})
		}
	}
	return out
}

func init() {
	models["encoding/json.Marshal"] = marshalModel
	models["encoding/json.MarshalIndent"] = marshalModel
	models["encoding/json.Unmarshal"] = func(c *callCtx) []callRes {
		s, ok := c.args[0].(*SliceV)
		if !ok {
			return c.havoc()
		}
		var segs []Seg
		if s.Obj != 0 {
			segs = c.in.sliceSegs(c.st, s)
		}
		return c.junmarshal(segs, c.args[1], false)
	}
	models["encoding/json.Valid"] = func(c *callCtx) []callRes {
		if s, ok := c.args[0].(*SliceV); ok && s.Obj != 0 {
			if n, ok := c.in.nodeOf(c.st, c.in.sliceSegs(c.st, s)); ok {
				if n.Kind == "any" {
					return one(c.st, predV("in."+n.Path+" is valid JSON"))
				}
				return one(c.st, boolConst(n.Kind != "invalid"))
			}
		}
		return c.havoc()
	}
	models["encoding/json.NewDecoder"] = func(c *callCtx) []callRes {
		id := c.st.alloc(&OpaqueV{Key: "json decoder of " + vkey(c.args[0]), NonNil: true, Args: []Val{c.args[0]}})
		return one(c.st, &PtrV{Obj: id})
	}
	models["(*encoding/json.Decoder).DisallowUnknownFields"] = func(c *callCtx) []callRes {
		if p, ok := c.args[0].(*PtrV); ok && p.Obj != 0 {
			if o, ok := c.in.object(c.st, p.Obj).(*OpaqueV); ok && len(o.Args) > 0 {
				c.st.set(p.Obj, &OpaqueV{Key: "strict " + o.Key, NonNil: true, Args: append(append([]Val{}, o.Args...), boolConst(true))})
			}
		}
		return one(c.st, &TupleV{})
	}
	models["(*encoding/json.Decoder).Decode"] = func(c *callCtx) []callRes {
		p, ok := c.args[0].(*PtrV)
		if !ok || p.Obj == 0 {
			return c.havoc()
		}
		o, ok := c.in.object(c.st, p.Obj).(*OpaqueV)
		if !ok || len(o.Args) == 0 {
			return c.havoc()
		}
		c2 := *c
		c2.args = []Val{o.Args[0]}
		rp, r := c2.reader(0)
		var segs []Seg
		if r != nil {
			segs = c.in.subAny(c.st, r.S, r.Pos, seqLen(r.S), byteT)
			q := *r
			q.Pos = seqLen(r.S)
			c.in.store(c.st, rp, &q)
		} else if bp, b := c2.buf(0); b != nil {
			segs = b.S
			c.in.store(c.st, bp, &BufObj{})
		} else {
			return c.havoc()
		}
		if len(c.in.trimEmpty(c.st, c.in.normSegs(c.st, segs))) == 0 {
			return one(c.st, eofErr)
		}
		return c.junmarshal(segs, c.args[1], len(o.Args) > 1)
	}
	models["encoding/json.NewEncoder"] = func(c *callCtx) []callRes {
		id := c.st.alloc(&OpaqueV{Key: "json encoder of " + vkey(c.args[0]), NonNil: true, Args: []Val{c.args[0]}})
		return one(c.st, &PtrV{Obj: id})
	}
	nop := func(c *callCtx) []callRes { return one(c.st, &TupleV{}) }
	models["(*encoding/json.Encoder).SetIndent"] = nop
	models["(*encoding/json.Encoder).SetEscapeHTML"] = nop
	models["(*encoding/json.Encoder).Encode"] = func(c *callCtx) []callRes {
		p, ok := c.args[0].(*PtrV)
		if !ok || p.Obj == 0 {
			return c.havoc()
		}
		o, ok := c.in.object(c.st, p.Obj).(*OpaqueV)
		if !ok || len(o.Args) == 0 {
			return c.havoc()
		}
		w, ok := o.Args[0].(*IfaceV)
		if !ok {
			return c.havoc()
		}
		fn := c.in.P.Prog.LookupMethod(w.T, nil, "Write")
		if fn == nil {
			return c.havoc()
		}
		rs, ok := c.jmarshal(c.args[1])
		if !ok {
			return c.havoc()
		}
		var out []callRes
		for _, r := range rs {
			if r.st.dead {
				continue
			}
			if r.err != nil {
				out = append(out, callRes{r.st, r.err})
				continue
			}
			for _, x := range c.in.callFn(r.st, c.instr, fn, []Val{w.V, c.in.jsonBytes(r.st, r.node)}, nil) {
				if t, ok := x.val.(*TupleV); ok && len(t.V) == 2 {
					out = append(out, callRes{x.st, t.V[1]})
				} else {
					out = append(out, callRes{x.st, c.in.symVal(x.st, errorT, c.in.freshName("write"))})
				}
			}
		}
		return out
	}
}

// jsonShow: the values an unknown document supplied, for display
func jsonShow(st *State) Val {
	var keys []string
	for k := range st.ghost {
		if strings.HasPrefix(k, "json:") {
			keys = append(keys, k)
		}
	}
	sort.Strings(keys)
	return &showV{keys, st}
}

type showV struct {
	keys []string
	st   *State
}
