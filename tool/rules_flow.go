package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Whole program dataflow rules.

func init() {
	register(&Check{ID: "C22",
		Rule: "In every function of the repository: the error result of every call is used (only writes that cannot fail or are diagnostics are exempt); wherever a path leaves a branch taken because an error is not nil, it does not return a nil error unless that error was handed on (returned, stored, sent, wrapped or passed to a call other than printing); in package main such a path ends with a non-zero exit status.",
		Run:  runC22})
}

// cannot fail, or writes a diagnostic
func errExempt(callee string) bool {
	for _, s := range []string{"fmt.Print", "fmt.Fprint", "(*strings.Builder).", "(*bytes.Buffer).Write", "(*bytes.Buffer).ReadFrom", "(io.Closer).Close", "(*os.File).Close", "(*flag.FlagSet).Parse", "(*bufio.Reader).UnreadByte", "(*bytes.Reader).UnreadByte", "(*os.File).Sync", "os.Remove", "fmt.Errorf", "errors.New"} {
		if strings.HasPrefix(callee, s) {
			return true
		}
	}
	return strings.HasSuffix(callee, ".Close")
}

func calleeName(c *ssa.CallCommon) string {
	if c.IsInvoke() {
		return "(" + c.Value.Type().String() + ")." + c.Method.Name()
	}
	if f := c.StaticCallee(); f != nil {
		return f.String()
	}
	return "dynamic call"
}

// infallible: the writer given is an in-memory buffer
func infallibleWriter(c *ssa.CallCommon, name string) bool {
	if name != "encoding/binary.Write" && name != "io.WriteString" && !strings.HasSuffix(name, "io.Writer).Write") {
		return false
	}
	var w ssa.Value
	if c.IsInvoke() {
		w = c.Value
	} else if len(c.Args) > 0 {
		w = c.Args[0]
	}
	if m, ok := w.(*ssa.MakeInterface); ok {
		t := m.X.Type().String()
		return t == "*bytes.Buffer" || t == "*strings.Builder"
	}
	return false
}

// errOf: the error value a call yields; missing if it is dropped
func errOf(v *ssa.Call) (ssa.Value, bool) {
	t := v.Type()
	if tp, ok := t.(*types.Tuple); ok {
		if tp.Len() == 0 || !isErrType(tp.At(tp.Len()-1).Type()) {
			return nil, false
		}
		for _, r := range *v.Referrers() {
			if x, ok := r.(*ssa.Extract); ok && x.Index == tp.Len()-1 {
				return x, true
			}
		}
		return nil, true
	}
	if !isErrType(t) {
		return nil, false
	}
	return v, true
}

type errFlow struct {
	p     *Program
	never map[*ssa.Function]bool // functions that only ever return nil errors
}

// neverFails: all returned errors are the constant nil
func (f *errFlow) neverFails(fn *ssa.Function, depth int) bool {
	if fn == nil || fn.Blocks == nil || depth > 4 {
		return false
	}
	if v, ok := f.never[fn]; ok {
		return v
	}
	f.never[fn] = false
	ok := true
	for _, b := range fn.Blocks {
		r, is := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !is {
			continue
		}
		if len(r.Results) == 0 || !f.nilErr(r.Results[len(r.Results)-1], depth+1, map[ssa.Value]bool{}) {
			ok = false
		}
	}
	f.never[fn] = ok
	return ok
}

func (f *errFlow) nilErr(v ssa.Value, depth int, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Const:
		return x.IsNil()
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !f.nilErr(e, depth, seen) {
				return false
			}
		}
		return true
	case *ssa.Call:
		return f.neverFails(x.Call.StaticCallee(), depth)
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			return f.neverFails(c.Call.StaticCallee(), depth)
		}
	}
	return false
}

// printing is not handling
func isDiagnostic(name string) bool {
	return strings.HasPrefix(name, "fmt.Print") || strings.HasPrefix(name, "fmt.Fprint") || strings.HasPrefix(name, "log.Print") || strings.Contains(name, "/log.") || strings.HasPrefix(name, "os.Is") || strings.HasPrefix(name, "errors.Is") || strings.HasPrefix(name, "errors.As")
}

// uses of an error value, through phis and interface conversions
type errUses struct {
	handed bool // returned, stored, sent, passed on
	tests  []*ssa.If
	phis   map[ssa.Value]bool
}

func (f *errFlow) uses(v ssa.Value, u *errUses) {
	if u.phis[v] {
		return
	}
	u.phis[v] = true
	for _, r := range *v.Referrers() {
		switch x := r.(type) {
		case *ssa.Store:
			if !printedOnly(x) {
				u.handed = true
			}
		case *ssa.Return, *ssa.Send, *ssa.MapUpdate, *ssa.Panic, *ssa.MakeClosure, *ssa.TypeAssert:
			u.handed = true
		case *ssa.Phi, *ssa.MakeInterface, *ssa.ChangeInterface:
			f.uses(x.(ssa.Value), u)
		case ssa.CallInstruction:
			if !isDiagnostic(calleeName(x.Common())) {
				u.handed = true
			}
		case *ssa.BinOp:
			for _, q := range *x.Referrers() {
				if i, ok := q.(*ssa.If); ok {
					u.tests = append(u.tests, i)
				} else {
					u.tests = append(u.tests, nil)
				}
			}
		}
	}
}

// nilTest: v compared with nil; the successor taken when v is not nil
func nilTest(i *ssa.If) (ssa.Value, int, bool) {
	b, ok := i.Cond.(*ssa.BinOp)
	if !ok || (b.Op != token.NEQ && b.Op != token.EQL) {
		return nil, 0, false
	}
	v := b.X
	if c, ok := v.(*ssa.Const); ok && c.IsNil() {
		v = b.Y
	} else if c, ok := b.Y.(*ssa.Const); !ok || !c.IsNil() {
		return nil, 0, false
	}
	if !isErrType(v.Type()) {
		return nil, 0, false
	}
	if b.Op == token.NEQ {
		return v, 0, true
	}
	return v, 1, true
}

func isErrT(fn *ssa.Function) bool {
	r := fn.Signature.Results()
	return r.Len() > 0 && isErrType(r.At(r.Len()-1).Type())
}

// exits: the block ends the program with a non-zero status
func exitsNonZero(b *ssa.BasicBlock) bool {
	for _, ins := range b.Instrs {
		c, ok := ins.(*ssa.Call)
		if !ok {
			continue
		}
		n := calleeName(&c.Call)
		if strings.HasPrefix(n, "log.Fatal") || strings.HasSuffix(n, ".Fatal") || strings.HasSuffix(n, ".Fatalf") {
			return true
		}
		if n == "os.Exit" {
			if k, ok := c.Call.Args[0].(*ssa.Const); ok && k.Value != nil && constant.Sign(k.Value) != 0 {
				return true
			}
			return false
		}
	}
	return false
}

// failPath: a block reachable from start, without passing a handling of one of the errors, that returns without an error.
func (f *errFlow) failPath(fn *ssa.Function, pred, start *ssa.BasicBlock, err ssa.Value, inMain bool) *ssa.Return {
	type edge struct{ from, to *ssa.BasicBlock }
	seen := map[edge]bool{}
	var walk func(from, b *ssa.BasicBlock, same map[ssa.Value]bool) *ssa.Return
	walk = func(from, b *ssa.BasicBlock, same map[ssa.Value]bool) *ssa.Return {
		if seen[edge{from, b}] {
			return nil
		}
		seen[edge{from, b}] = true
		env := map[ssa.Value]bool{}
		for k := range same {
			env[k] = true
		}
		isNil := map[ssa.Value]bool{}
		for _, ins := range b.Instrs {
			switch x := ins.(type) {
			case *ssa.Phi:
				for i, p := range b.Preds {
					if p == from {
						if same[x.Edges[i]] {
							env[x] = true
						}
						if c, ok := x.Edges[i].(*ssa.Const); ok && c.IsNil() {
							isNil[x] = true
						}
					}
				}
				continue
			case *ssa.MakeInterface:
				if env[x.X] {
					env[x] = true
				}
			case *ssa.ChangeInterface:
				if env[x.X] {
					env[x] = true
				}
			case *ssa.Store:
				if env[x.Val] && !printedOnly(x) {
					return nil
				}
			case *ssa.Send:
				if env[x.X] {
					return nil
				}
			case *ssa.Panic:
				return nil
			case ssa.CallInstruction:
				n := calleeName(x.Common())
				if n == "os.Exit" || strings.Contains(n, "Fatal") {
					if inMain && !exitsNonZero(b) {
						return retOf(b)
					}
					return nil
				}
				if isDiagnostic(n) {
					continue
				}
				for _, a := range x.Common().Args {
					if env[a] {
						return nil
					}
				}
				if x.Common().IsInvoke() && env[x.Common().Value] {
					return nil
				}
			case *ssa.Return:
				if len(x.Results) == 0 || !isErrT(fn) {
					if inMain && fn.Name() == "main" {
						return x
					}
					return nil
				}
				r := x.Results[len(x.Results)-1]
				if u, ok := r.(*ssa.UnOp); ok { // results are variables where there are deferred calls
					for _, q := range b.Instrs {
						if s, ok := q.(*ssa.Store); ok && s.Addr == u.X {
							r = s.Val
						}
					}
				}
				if c, ok := r.(*ssa.Const); ok && c.IsNil() {
					return x
				}
				if isNil[r] {
					return x
				}
				return nil
			}
		}
		// a further test of the same error is decided
		if i, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
			if v, s, ok := nilTest(i); ok && env[v] {
				return walk(b, b.Succs[s], env)
			}
			// the test of another property of the error (io.EOF): deliberate handling
			if bo, ok := i.Cond.(*ssa.BinOp); ok && (env[bo.X] || env[bo.Y]) {
				if bo.Op == token.EQL {
					return walk(b, b.Succs[1], env)
				}
				return walk(b, b.Succs[0], env)
			}
			if c, ok := i.Cond.(*ssa.Call); ok && isDiagnostic(calleeName(&c.Call)) {
				for _, a := range c.Call.Args {
					if env[a] {
						return walk(b, b.Succs[1], env)
					}
				}
			}
		}
		// beyond a loop's next iteration or a later failure the error is another one
		for _, s := range b.Succs {
			if r := walk(b, s, env); r != nil {
				return r
			}
		}
		return nil
	}
	return walk(pred, start, map[ssa.Value]bool{err: true})
}

// reaches: from where the error v is made, block b can be reached with v neither nil nor recognised as a particular error
func (f *errFlow) reaches(v ssa.Value, b *ssa.BasicBlock) bool {
	ins, ok := v.(ssa.Instruction)
	if !ok {
		return true
	}
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(x *ssa.BasicBlock) bool
	walk = func(x *ssa.BasicBlock) bool {
		if x == b {
			return true
		}
		if seen[x] {
			return false
		}
		seen[x] = true
		next := x.Succs
		if i, ok := x.Instrs[len(x.Instrs)-1].(*ssa.If); ok {
			if w, s, ok := nilTest(i); ok && w == v {
				next = x.Succs[s : s+1]
			} else if bo, ok := i.Cond.(*ssa.BinOp); ok && (bo.X == v || bo.Y == v) {
				if bo.Op == token.EQL {
					next = x.Succs[1:]
				} else {
					next = x.Succs[:1]
				}
			} else if c, ok := i.Cond.(*ssa.Call); ok && isDiagnostic(calleeName(&c.Call)) {
				for _, a := range c.Call.Args {
					if a == v {
						next = x.Succs[1:]
					}
				}
			}
		}
		for _, s := range next {
			if walk(s) {
				return true
			}
		}
		return false
	}
	return walk(ins.Block())
}

func retOf(b *ssa.BasicBlock) *ssa.Return {
	for _, ins := range b.Instrs {
		if r, ok := ins.(*ssa.Return); ok {
			return r
		}
	}
	return &ssa.Return{}
}

func runC22(c *Ctx) {
	f := &errFlow{p: c.P, never: map[*ssa.Function]bool{}}
	for _, fn := range c.P.fns {
		if fn.Synthetic != "" && fn.Name() != "init" {
			continue
		}
		c.funcs[fn.String()] = true
		inMain := fnPkg(fn) != nil && fnPkg(fn).Name() == "main"
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				call, ok := ins.(*ssa.Call)
				if !ok {
					continue
				}
				name := calleeName(&call.Call)
				ev, isErr := errOf(call)
				if !isErr || errExempt(name) || infallibleWriter(&call.Call, name) || f.neverFails(call.Call.StaticCallee(), 0) {
					continue
				}
				c.counts["calls that can fail"]++
				where := c.P.pos(call.Pos())
				key := "used/" + fn.String() + "/" + name
				if ev == nil || len(*ev.Referrers()) == 0 {
					c.Fail(key, where, "the error returned by "+name+" is dropped in "+fn.String())
					continue
				}
				u := &errUses{phis: map[ssa.Value]bool{}}
				f.uses(ev, u)
				if !u.handed && (len(u.tests) == 0 || !isErrT(fn) && !inMain) {
					c.Fail(key, where, "the error returned by "+name+" is only printed or ignored in "+fn.String())
					continue
				}
				c.Pass(key, "error of "+name+" at "+where+" is used")
			}
			i, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
			if !ok {
				continue
			}
			v, s, ok := nilTest(i)
			if !ok {
				continue
			}
			if !f.reaches(v, b) {
				continue // only an error that was recognised (io.EOF) comes this far
			}
			c.counts["error branches"]++
			key := "branch/" + fn.String() + "/" + c.P.pos(i.Cond.Pos())
			if r := f.failPath(fn, b, b.Succs[s], v, inMain); r != nil {
				w := c.P.pos(i.Cond.Pos())
				c.Fail(key, w, "in "+fn.String()+" the error tested at "+w+" is not nil, but the function then returns without an error", "return at "+c.P.pos(r.Pos()))
			} else {
				c.Pass(key, "")
			}
		}
	}
}

// printedOnly: the value goes into the argument list of a call that only prints
func printedOnly(s *ssa.Store) bool {
	ia, ok := s.Addr.(*ssa.IndexAddr)
	if !ok {
		return false
	}
	al, ok := ia.X.(*ssa.Alloc)
	if !ok || al.Comment != "varargs" {
		return false
	}
	for _, r := range *al.Referrers() {
		sl, ok := r.(*ssa.Slice)
		if !ok {
			continue
		}
		for _, q := range *sl.Referrers() {
			c, ok := q.(ssa.CallInstruction)
			if !ok || !isDiagnostic(calleeName(c.Common())) {
				return false
			}
		}
	}
	return true
}
