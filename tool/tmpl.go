package main

import (
	"fmt"
	"go/ast"
	"go/types"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"text/template/parse"

	"golang.org/x/tools/go/ssa"
)

// text/template, evaluated on abstract data

type tmplSet struct {
	trees map[string]*parse.Tree
	funcs map[string]*FuncV
}

var tmplSets = map[string]*tmplSet{}

// embeds gives package level strings their //go:embed contents
func (p *Program) embeds() map[*types.Var]string {
	out := map[*types.Var]string{}
	for _, q := range p.Pkgs {
		for _, f := range q.Syntax {
			for _, d := range f.Decls {
				g, ok := d.(*ast.GenDecl)
				if !ok {
					continue
				}
				for _, s := range g.Specs {
					vs, ok := s.(*ast.ValueSpec)
					if !ok || len(vs.Names) != 1 {
						continue
					}
					for _, doc := range []*ast.CommentGroup{g.Doc, vs.Doc} {
						if doc == nil {
							continue
						}
						for _, c := range doc.List {
							if !strings.HasPrefix(c.Text, "//go:embed ") {
								continue
							}
							name := strings.Trim(strings.TrimSpace(strings.TrimPrefix(c.Text, "//go:embed ")), "\"`")
							b, err := os.ReadFile(filepath.Join(filepath.Dir(p.Fset.Position(f.Pos()).Filename), name))
							if v, ok := q.TypesInfo.Defs[vs.Names[0]].(*types.Var); ok && err == nil && isString(v.Type()) {
								out[v] = string(b)
							}
						}
					}
				}
			}
		}
	}
	return out
}

func (in *Interp) loadEmbeds() {
	for v, s := range in.P.embeds() {
		q := in.P.byPath[v.Pkg().Path()]
		if q == nil {
			continue
		}
		if g, ok := q.Members[v.Name()].(*ssa.Global); ok {
			id := in.global(newState(), g)
			in.base[id] = strLit(s)
		}
	}
}

type tval struct {
	t types.Type
	v Val
}

type texec struct {
	in   *Interp
	set  *tmplSet
	c    *callCtx
	vars []struct {
		n string
		v tval
	}
}

type tres struct {
	st  *State
	v   tval
	err Val
}

// tout: rendered so far
type tout struct {
	st  *State
	s   []Seg
	err Val
}

func (c *callCtx) tmpl(i int) (*tmplSet, string) {
	o, ok := c.args[i].(*OpaqueV)
	if !ok || !strings.HasPrefix(o.Key, "tmpl:") {
		return nil, ""
	}
	f := strings.SplitN(o.Key, ":", 3)
	return tmplSets[f[1]], f[2]
}

func tmplVal(id, name string, t types.Type) Val {
	return &OpaqueV{Key: "tmpl:" + id + ":" + name, T: t, NonNil: true, Distinct: true}
}

func init() {
	m := models
	m["text/template.New"] = func(c *callCtx) []callRes {
		l, ok := c.lits(1)
		if !ok {
			return c.havoc()
		}
		id := strconv.Itoa(len(tmplSets))
		tmplSets[id] = &tmplSet{map[string]*parse.Tree{}, map[string]*FuncV{}}
		return one(c.st, tmplVal(id, l[0], c.sig.Results().At(0).Type()))
	}
	id := func(c *callCtx) string { return strings.SplitN(c.args[0].(*OpaqueV).Key, ":", 3)[1] }
	m["(*text/template.Template).New"] = func(c *callCtx) []callRes {
		s, _ := c.tmpl(0)
		n, ok := c.str(1)
		if s == nil || !ok {
			return c.havoc()
		}
		l, ok := n.lit()
		if !ok {
			return c.havoc()
		}
		return one(c.st, tmplVal(id(c), l, c.sig.Results().At(0).Type()))
	}
	m["(*text/template.Template).Funcs"] = func(c *callCtx) []callRes {
		s, _ := c.tmpl(0)
		mv, ok := c.args[1].(*MapV)
		if s == nil || !ok {
			return c.havoc()
		}
		mo, ok := c.in.object(c.st, mv.Obj).(*MapObj)
		if !ok || mo.Sym != "" {
			return c.havoc()
		}
		for _, e := range mo.E {
			k, ok := e.K.(*StrV)
			if !ok {
				return c.havoc()
			}
			l, ok := k.lit()
			_, v := dyn(e.V)
			f, ok2 := v.(*FuncV)
			if !ok || !ok2 {
				return c.havoc()
			}
			s.funcs[l] = f
		}
		return one(c.st, c.args[0])
	}
	m["(*text/template.Template).Parse"] = func(c *callCtx) []callRes {
		s, name := c.tmpl(0)
		t, ok := c.str(1)
		if s == nil || !ok {
			return c.havoc()
		}
		l, ok := t.lit()
		if !ok {
			return c.havoc()
		}
		fm := map[string]any{}
		for k := range s.funcs {
			fm[k] = fmt.Sprint
		}
		for _, k := range []string{"and", "or", "not", "eq", "ne", "lt", "le", "gt", "ge", "len", "index", "slice", "print", "printf", "println", "call", "html", "js", "urlquery"} {
			fm[k] = fmt.Sprint
		}
		trees, err := parse.Parse(name, l, "", "", fm)
		if err != nil {
			return one(c.st, tup(&NilV{}, c.in.newErr("template: "+err.Error())))
		}
		for k, t := range trees {
			if old, had := s.trees[k]; had && parse.IsEmptyTree(t.Root) && old != nil {
				continue
			}
			s.trees[k] = t
		}
		return one(c.st, tup(c.args[0], noErr))
	}
	m["text/template.Must"] = func(c *callCtx) []callRes {
		if _, ok := c.args[1].(*NilIface); ok {
			return one(c.st, c.args[0])
		}
		return c.havoc()
	}
	m["(*text/template.Template).Lookup"] = func(c *callCtx) []callRes {
		s, _ := c.tmpl(0)
		n, ok := c.str(1)
		if s == nil || !ok {
			return c.havoc()
		}
		l, ok := n.lit()
		if !ok {
			return c.havoc()
		}
		if s.trees[l] == nil {
			return one(c.st, &NilV{})
		}
		return one(c.st, tmplVal(id(c), l, c.sig.Results().At(0).Type()))
	}
	exec := func(c *callCtx, s *tmplSet, name string, w, data Val) []callRes {
		if s == nil || s.trees[name] == nil {
			return c.havoc()
		}
		x := &texec{in: c.in, set: s, c: c}
		var out []callRes
		t, v := dyn(data)
		dot := tval{t, v}
		x.push("$", dot)
		for _, r := range x.walk(tout{st: c.st}, dot, s.trees[name].Root) {
			c2 := *c
			c2.st = r.st
			c2.args = []Val{w}
			p, b := c2.buf(0)
			if b == nil {
				return c.havoc()
			}
			c.in.store(r.st, p, &BufObj{S: c.in.joinSegs(r.st, append(append([]Seg{}, b.S...), r.s...))})
			e := r.err
			if e == nil {
				e = noErr
			}
			out = append(out, callRes{r.st, e})
		}
		return out
	}
	m["(*text/template.Template).Execute"] = func(c *callCtx) []callRes {
		s, n := c.tmpl(0)
		return exec(c, s, n, c.args[1], c.args[2])
	}
	m["(*text/template.Template).ExecuteTemplate"] = func(c *callCtx) []callRes {
		s, _ := c.tmpl(0)
		n, ok := c.str(2)
		if !ok {
			return c.havoc()
		}
		l, _ := n.lit()
		return exec(c, s, l, c.args[1], c.args[3])
	}
}

func (x *texec) push(n string, v tval) {
	x.vars = append(x.vars, struct {
		n string
		v tval
	}{n, v})
}

func (x *texec) lookup(n string) tval {
	for i := len(x.vars) - 1; i >= 0; i-- {
		if x.vars[i].n == n {
			return x.vars[i].v
		}
	}
	panic(stop{"template variable " + n})
}

func (x *texec) fail(st *State, s []Seg, why string) []tout {
	return []tout{{st, s, x.in.newErr("template: " + why)}}
}

func (x *texec) walk(o tout, dot tval, n parse.Node) []tout {
	if o.err != nil {
		return []tout{o}
	}
	switch n := n.(type) {
	case nil:
		return []tout{o}
	case *parse.ListNode:
		outs := []tout{o}
		if n == nil {
			return outs
		}
		for _, k := range n.Nodes {
			var next []tout
			for _, y := range outs {
				next = append(next, x.walk(y, dot, k)...)
			}
			outs = next
		}
		return outs
	case *parse.TextNode:
		o.s = append(append([]Seg{}, o.s...), &SegLit{string(n.Text)})
		return []tout{o}
	case *parse.CommentNode:
		return []tout{o}
	case *parse.ActionNode:
		var outs []tout
		for _, r := range x.pipe(o.st, dot, n.Pipe) {
			if r.err != nil {
				outs = append(outs, tout{r.st, o.s, r.err})
				continue
			}
			if len(n.Pipe.Decl) > 0 {
				x.push(n.Pipe.Decl[0].Ident[0], r.v)
				outs = append(outs, tout{r.st, o.s, nil})
				continue
			}
			for _, s := range x.print(r.st, r.v) {
				outs = append(outs, tout{s.st, append(append([]Seg{}, o.s...), s.s.S...), nil})
			}
		}
		return outs
	case *parse.IfNode:
		return x.cond(o, dot, n.Pipe, n.List, n.ElseList, false)
	case *parse.WithNode:
		return x.cond(o, dot, n.Pipe, n.List, n.ElseList, true)
	case *parse.RangeNode:
		var outs []tout
		mark := len(x.vars)
		for _, r := range x.pipe(o.st, dot, n.Pipe) {
			if r.err != nil {
				outs = append(outs, tout{r.st, o.s, r.err})
				continue
			}
			sl, ok := r.v.v.(*SliceV)
			if !ok {
				panic(stop{fmt.Sprintf("template: range over %T", r.v.v)})
			}
			et := sl.Elem
			if s, ok := r.v.t.Underlying().(*types.Slice); ok {
				et = s.Elem()
			}
			cur := []tout{{r.st, o.s, nil}}
			segs := x.in.normSegs(r.st, x.in.sliceSegs(r.st, sl))
			if len(segs) == 0 && n.ElseList != nil {
				outs = append(outs, x.walk(cur[0], dot, n.ElseList)...)
				continue
			}
			for _, g := range segs {
				e, ok := g.(*SegElem)
				if !ok {
					panic(stop{"template: range over a list of unknown length"})
				}
				var next []tout
				for _, y := range cur {
					if y.err != nil {
						next = append(next, y)
						continue
					}
					t, v := et, e.V
					if f, ok := v.(*IfaceV); ok {
						t, v = f.T, f.V
					}
					if k := len(n.Pipe.Decl); k > 0 {
						x.push(n.Pipe.Decl[k-1].Ident[0], tval{t, v})
					}
					next = append(next, x.walk(y, tval{t, v}, n.List)...)
				}
				cur = next
			}
			outs = append(outs, cur...)
		}
		x.vars = x.vars[:mark]
		return outs
	case *parse.TemplateNode:
		t := x.set.trees[n.Name]
		if t == nil {
			return x.fail(o.st, o.s, "no template "+n.Name)
		}
		run := func(st *State, d tval) []tout {
			y := &texec{in: x.in, set: x.set, c: x.c}
			y.push("$", d)
			return y.walk(tout{st, o.s, nil}, d, t.Root)
		}
		if n.Pipe == nil {
			return run(o.st, tval{nil, &NilIface{}})
		}
		var outs []tout
		for _, r := range x.pipe(o.st, dot, n.Pipe) {
			if r.err != nil {
				outs = append(outs, tout{r.st, o.s, r.err})
				continue
			}
			outs = append(outs, run(r.st, r.v)...)
		}
		return outs
	}
	panic(stop{fmt.Sprintf("template: %T", n)})
}

func (x *texec) print(st *State, v tval) []strRes {
	a := v.v
	t := v.t
	if t == nil {
		return []strRes{{st, strLit("<no value>")}}
	}
	if p, ok := t.Underlying().(*types.Pointer); ok && x.in.P.methodOf(t, "String") == nil && x.in.P.methodOf(t, "Error") == nil {
		if q, ok := a.(*PtrV); ok && q.Obj != 0 {
			t, a = p.Elem(), x.in.load(st, q, p.Elem())
		}
	}
	c := *x.c
	c.st = st
	return c.fmtArg(st, "%v", &IfaceV{t, a})
}

func (x *texec) cond(o tout, dot tval, p *parse.PipeNode, yes, no *parse.ListNode, with bool) []tout {
	var outs []tout
	mark := len(x.vars)
	for _, r := range x.pipe(o.st, dot, p) {
		if r.err != nil {
			outs = append(outs, tout{r.st, o.s, r.err})
			continue
		}
		d := dot
		if with {
			d = r.v
		}
		c := x.truth(r.st, r.v)
		t := r.st.evalCond(c)
		if t != 0 {
			st := r.st
			if t < 0 {
				st = r.st.clone()
				st.assume(c, true)
			}
			if !st.dead {
				outs = append(outs, x.walk(tout{st, o.s, nil}, d, yes)...)
			}
		}
		if t != 1 {
			st := r.st
			if t < 0 {
				st.assume(c, false)
			}
			if !st.dead {
				if no == nil {
					outs = append(outs, tout{st, o.s, nil})
				} else {
					outs = append(outs, x.walk(tout{st, o.s, nil}, dot, no)...)
				}
			}
		}
	}
	x.vars = x.vars[:mark]
	return outs
}

func (x *texec) truth(st *State, v tval) *Cond {
	switch y := v.v.(type) {
	case *BoolV:
		return y.C
	case *Num:
		return condNot(&Cond{Kind: 'e', L: st.resolve(y).L})
	case *StrV:
		return geCond(linAddK(seqLen(y.S), 1, linConst(-1)))
	case *SliceV:
		return geCond(linAddK(y.lenLin(), 1, linConst(-1)))
	case *StructV:
		return boolConst(true).C
	case *PtrV:
		return condNot(x.in.isNilCond(st, y))
	}
	panic(stop{fmt.Sprintf("template: truth of %T", v.v)})
}

func (x *texec) pipe(st *State, dot tval, p *parse.PipeNode) []tres {
	cur := []tres{{st: st}}
	for i, c := range p.Cmds {
		var next []tres
		for _, r := range cur {
			if r.err != nil {
				next = append(next, r)
				continue
			}
			var final *tval
			if i > 0 {
				f := r.v
				final = &f
			}
			next = append(next, x.cmd(r.st, dot, c, final)...)
		}
		cur = next
	}
	return cur
}

func (x *texec) cmd(st *State, dot tval, c *parse.CommandNode, final *tval) []tres {
	if id, ok := c.Args[0].(*parse.IdentifierNode); ok {
		cur := []struct {
			st   *State
			args []tval
		}{{st, nil}}
		for _, a := range c.Args[1:] {
			var next []struct {
				st   *State
				args []tval
			}
			for _, y := range cur {
				for _, r := range x.arg(y.st, dot, a) {
					if r.err != nil {
						return []tres{r}
					}
					next = append(next, struct {
						st   *State
						args []tval
					}{r.st, append(append([]tval{}, y.args...), r.v)})
				}
			}
			cur = next
		}
		var out []tres
		for _, y := range cur {
			a := y.args
			if final != nil {
				a = append(append([]tval{}, a...), *final)
			}
			out = append(out, x.call(y.st, id.Ident, a)...)
		}
		return out
	}
	if len(c.Args) > 1 || final != nil {
		panic(stop{"template: method call with arguments"})
	}
	return x.arg(st, dot, c.Args[0])
}

func (x *texec) arg(st *State, dot tval, n parse.Node) []tres {
	lit := func(t types.Type, v Val) []tres { return []tres{{st: st, v: tval{t, v}}} }
	switch n := n.(type) {
	case *parse.DotNode:
		return []tres{{st: st, v: dot}}
	case *parse.FieldNode:
		return x.chain(st, dot, n.Ident)
	case *parse.VariableNode:
		return x.chain(st, x.lookup(n.Ident[0]), n.Ident[1:])
	case *parse.ChainNode:
		var out []tres
		for _, r := range x.arg(st, dot, n.Node) {
			if r.err != nil {
				out = append(out, r)
				continue
			}
			out = append(out, x.chain(r.st, r.v, n.Field)...)
		}
		return out
	case *parse.PipeNode:
		return x.pipe(st, dot, n)
	case *parse.StringNode:
		return lit(stringT, strLit(n.Text))
	case *parse.NumberNode:
		if n.IsInt {
			return lit(types.Typ[types.Int], intConst(n.Int64))
		}
	case *parse.BoolNode:
		return lit(types.Typ[types.Bool], boolConst(n.True))
	case *parse.IdentifierNode:
		return x.call(st, n.Ident, nil)
	}
	panic(stop{fmt.Sprintf("template: argument %v", n)})
}

func (x *texec) chain(st *State, v tval, names []string) []tres {
	cur := []tres{{st: st, v: v}}
	for _, n := range names {
		var next []tres
		for _, r := range cur {
			if r.err != nil {
				next = append(next, r)
				continue
			}
			next = append(next, x.field(r.st, r.v, n)...)
		}
		cur = next
	}
	return cur
}

func tunwrap(v tval) tval {
	for v.t != nil && types.IsInterface(v.t) {
		f, ok := v.v.(*IfaceV)
		if !ok {
			return v
		}
		v = tval{f.T, f.V}
	}
	return v
}

func (x *texec) field(st *State, v tval, name string) []tres {
	v = tunwrap(v)
	if v.t == nil || types.IsInterface(v.t) {
		return []tres{{st: st, err: x.in.newErr("template: nil data; no entry for key " + name)}}
	}
	if m := x.in.P.methodOf(v.t, name); m != nil {
		if m.Signature.Params().Len() != 0 || m.Signature.Results().Len() == 0 || m.Signature.Results().Len() > 2 {
			return []tres{{st: st, err: x.in.newErr("template: wrong number of args for " + name)}}
		}
		var out []tres
		for _, r := range x.in.callFn(st, x.c.instr, m, []Val{v.v}, nil) {
			if r.st.dead {
				continue
			}
			rt := m.Signature.Results().At(0).Type()
			if t, ok := r.val.(*TupleV); ok && m.Signature.Results().Len() == 2 {
				if x.in.errNil(r.st, t.V[1]) != 1 {
					panic(stop{"template: method with an error result"})
				}
				out = append(out, tres{st: r.st, v: tunwrap(tval{rt, t.V[0]})})
				continue
			}
			val := r.val
			if t, ok := val.(*TupleV); ok && len(t.V) == 1 {
				val = t.V[0]
			}
			out = append(out, tres{st: r.st, v: tunwrap(tval{rt, val})})
		}
		return out
	}
	o, index, _ := types.LookupFieldOrMethod(v.t, true, nil, name)
	if _, ok := o.(*types.Var); !ok || !ast.IsExported(name) {
		return []tres{{st: st, err: x.in.newErr("template: can't evaluate field " + name + " in type " + v.t.String())}}
	}
	for _, i := range index {
		if p, ok := v.t.Underlying().(*types.Pointer); ok {
			q, ok := v.v.(*PtrV)
			if !ok || q.Obj == 0 {
				return []tres{{st: st, err: x.in.newErr("template: nil pointer evaluating " + name)}}
			}
			v = tval{p.Elem(), x.in.load(st, q, p.Elem())}
		}
		s, ok := v.v.(*StructV)
		if !ok {
			panic(stop{fmt.Sprintf("template: field %s of %T", name, v.v)})
		}
		v = tval{v.t.Underlying().(*types.Struct).Field(i).Type(), s.F[i]}
	}
	return []tres{{st: st, v: tunwrap(v)}}
}

func (x *texec) call(st *State, name string, args []tval) []tres {
	bl := func(c *Cond) []tres { return []tres{{st: st, v: tval{types.Typ[types.Bool], &BoolV{c}}}} }
	if f := x.set.funcs[name]; f != nil {
		sig := f.F.Signature
		var vals []Val
		bad := func(why string) []tres {
			return []tres{{st: st, err: x.in.newErr("template: " + name + ": " + why)}}
		}
		conv := func(t types.Type, a tval) (Val, bool) {
			if types.IsInterface(t) {
				if a.t == nil {
					return &NilIface{}, true
				}
				if types.IsInterface(a.t) {
					return a.v, true
				}
				return &IfaceV{a.t, a.v}, true
			}
			if a.t == nil || !types.AssignableTo(a.t, t) {
				if a.t != nil && types.Identical(a.t, types.Typ[types.Int]) {
					if n, ok := a.v.(*Num); ok { // an untyped constant
						if w, s, ok := numType(t); ok {
							return numConv(st, n, w, s), true
						}
					}
				}
				return nil, false
			}
			return a.v, true
		}
		np := sig.Params().Len()
		fixed := np
		if sig.Variadic() {
			fixed--
		}
		if len(args) < fixed || len(args) > np && !sig.Variadic() {
			return bad("wrong number of args")
		}
		for i := 0; i < fixed; i++ {
			v, ok := conv(sig.Params().At(i).Type(), args[i])
			if !ok {
				return bad("wrong type of argument")
			}
			vals = append(vals, v)
		}
		if sig.Variadic() {
			et := sig.Params().At(np - 1).Type().(*types.Slice).Elem()
			var segs []Seg
			for _, a := range args[fixed:] {
				v, ok := conv(et, a)
				if !ok {
					return bad("wrong type of argument")
				}
				segs = append(segs, &SegElem{v})
			}
			vals = append(vals, x.in.newSlice(st, segs, et))
		}
		var out []tres
		for _, r := range x.in.callFn(st, x.c.instr, f.F, vals, f.B) {
			if r.st.dead {
				continue
			}
			v := r.val
			if t, ok := v.(*TupleV); ok {
				v = t.V[0]
			}
			out = append(out, tres{st: r.st, v: tunwrap(tval{sig.Results().At(0).Type(), v})})
		}
		return out
	}
	switch name {
	case "not":
		return bl(condNot(x.truth(st, args[0])))
	case "eq", "ne":
		if len(args) == 2 {
			c := x.in.eqCond(st, args[0].v, args[1].v)
			if name == "ne" {
				c = condNot(c)
			}
			return bl(c)
		}
	case "and", "or":
		if len(args) == 2 {
			t := st.evalCond(x.truth(st, args[0]))
			if t >= 0 {
				if (t == 1) == (name == "and") {
					return []tres{{st: st, v: args[1]}}
				}
				return []tres{{st: st, v: args[0]}}
			}
		}
	case "len":
		switch y := args[0].v.(type) {
		case *SliceV:
			return []tres{{st: st, v: tval{types.Typ[types.Int], intLin(y.lenLin())}}}
		case *StrV:
			return []tres{{st: st, v: tval{types.Typ[types.Int], intLin(seqLen(y.S))}}}
		}
	case "printf":
		if f, ok := args[0].v.(*StrV); ok {
			if l, ok := f.lit(); ok {
				c := *x.c
				c.st = st
				var out []tres
				var vs []Val
				for _, a := range args[1:] {
					vs = append(vs, &IfaceV{a.t, a.v})
				}
				for _, r := range c.sprintf(l, vs) {
					out = append(out, tres{st: r.st, v: tval{stringT, r.s}})
				}
				return out
			}
		}
	}
	panic(stop{"template: function " + name})
}
