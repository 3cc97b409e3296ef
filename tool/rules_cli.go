package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The command line: options (C28) and files (C23).

func init() {
	register(&Check{ID: "C28",
		Rule: "For every command (a type with Flagset, Help and Execute methods): each option registered on its flag set by Flagset, or by what it calls, is stored in a variable that belongs to that command and to no other option; the name is not registered twice on the flag set; the variable is read by a function reachable from the command's Execute and is not overwritten there; no function reachable from Execute reads the option set of another command; every option named in the command's Help exists. The options of main are read by main.",
		Run:  runC28})
	register(&Check{ID: "C23",
		Rule: "Every call that creates, truncates, renames or removes a file, in every function reachable from a command's Execute: the path it is given is computed from an output option of the command or is a new name beside the input (--split), never the input's own name or a fixed name; on no path through Execute does it precede the read and decode (or assembly) of the input, nor follow a failure of them; input files are opened read-only.",
		Run:  runC23})
}

type option struct {
	name  string
	field string // variable: "T.field" or the package variable
	idx   int
	glob  *ssa.Global
	owner types.Type
	where string
	kind  string
}

type command struct {
	t       *types.Named
	flagset *ssa.Function
	exec    *ssa.Function
	help    *ssa.Function
	opts    []option
}

func constStr(v ssa.Value) (string, bool) {
	k, ok := v.(*ssa.Const)
	if !ok || k.Value == nil || k.Value.Kind() != constant.String {
		return "", false
	}
	return constant.StringVal(k.Value), true
}

func (p *Program) commands() []*command {
	var out []*command
	seen := map[string]bool{}
	for _, fn := range p.fns {
		if fn.Name() != "Execute" || fn.Signature.Recv() == nil || fn.Synthetic != "" {
			continue
		}
		ps := fn.Signature.Params()
		if ps.Len() != 1 || ps.At(0).Type().String() != "*flag.FlagSet" {
			continue
		}
		t := fn.Signature.Recv().Type()
		if pt, ok := t.(*types.Pointer); ok {
			t = pt.Elem()
		}
		n, ok := t.(*types.Named)
		if !ok || seen[n.String()] {
			continue
		}
		seen[n.String()] = true
		c := &command{t: n, exec: fn}
		for _, g := range p.fns {
			if g.Signature.Recv() == nil || g.Synthetic != "" {
				continue
			}
			r := g.Signature.Recv().Type()
			if pt, ok := r.(*types.Pointer); ok {
				r = pt.Elem()
			}
			if !types.Identical(r, n) {
				continue
			}
			switch g.Name() {
			case "Flagset":
				c.flagset = g
			case "Help":
				c.help = g
			}
		}
		out = append(out, c)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].t.String() < out[j].t.String() })
	return out
}

// registrations of options in fn and what it calls
func (p *Program) registered(fn *ssa.Function, seen map[*ssa.Function]bool, env map[ssa.Value]ssa.Value, fail func(where, why string)) []option {
	if fn == nil || seen[fn] || !p.isRepoFn(fn) {
		return nil
	}
	seen[fn] = true
	var out []option
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			cl, ok := ins.(ssa.CallInstruction)
			if !ok {
				continue
			}
			f := cl.Common().StaticCallee()
			if f == nil {
				continue
			}
			n := f.String()
			if p.isRepoFn(f) {
				sub := map[ssa.Value]ssa.Value{}
				for k, v := range env {
					sub[k] = v
				}
				for i, a := range cl.Common().Args {
					if i < len(f.Params) {
						sub[f.Params[i]] = a
					}
				}
				out = append(out, p.registered(f, seen, sub, fail)...)
				continue
			}
			if !strings.HasPrefix(n, "(*flag.FlagSet).") && !strings.HasPrefix(n, "flag.") {
				continue
			}
			m := f.Name()
			where := p.pos(ins.Pos())
			args := cl.Common().Args
			if strings.HasPrefix(n, "(*flag.FlagSet).") {
				args = args[1:]
			}
			if !strings.HasSuffix(m, "Var") || len(args) < 2 || m == "Var" {
				switch m {
				case "String", "Int", "Bool", "Uint", "Float64", "Duration", "Func", "BoolFunc", "Var":
					fail(where, "an option is registered by "+n)
				}
				continue
			}
			name, ok := constStr(args[1])
			if !ok {
				if v, in := env[args[1]]; in {
					name, ok = constStr(v)
				}
			}
			if !ok {
				fail(where, "the name of an option is not a constant")
				continue
			}
			o := option{name: name, where: where, kind: m, idx: -1}
			addr := args[0]
			for i := 0; i < 8; i++ {
				if v, in := env[addr]; in {
					addr = v
					continue
				}
				if u, ok := addr.(*ssa.UnOp); ok && u.Op == token.MUL {
					addr = stripV(u)
				}
				break
			}
			switch x := addr.(type) {
			case *ssa.Global:
				o.glob = x
				o.field = x.String()
			case *ssa.FieldAddr:
				st := x.X.Type().Underlying().(*types.Pointer).Elem()
				o.idx = x.Field
				o.owner = st
				base := x.X
				for i := 0; i < 8; i++ {
					if v, in := env[base]; in {
						base = v
						continue
					}
					break
				}
				if g, ok := base.(*ssa.Global); ok {
					o.glob = g
				}
				s := st.Underlying().(*types.Struct)
				o.field = types.TypeString(st, func(q *types.Package) string { return q.Name() }) + "." + s.Field(x.Field).Name()
				if _, named := st.(*types.Named); !named && o.glob != nil {
					o.field = o.glob.String() + "." + s.Field(x.Field).Name()
				}
			default:
				fail(where, "the variable of option "+name+" is not recognised")
				continue
			}
			out = append(out, o)
		}
	}
	return out
}

// reads and writes of a field of a struct type (or of a package variable) in a function
func (p *Program) accesses(fn *ssa.Function, o option) (reads, writes []ssa.Instruction) {
	match := func(t types.Type, idx int) bool {
		if o.owner == nil || idx != o.idx {
			return false
		}
		if pt, ok := t.Underlying().(*types.Pointer); ok {
			t = pt.Elem()
		}
		return types.Identical(t, o.owner)
	}
	addr := func(v ssa.Value) {
		for _, r := range *v.Referrers() {
			if s, ok := r.(*ssa.Store); ok && s.Addr == v {
				writes = append(writes, r)
				continue
			}
			if u, ok := r.(*ssa.UnOp); ok && used(u) {
				reads = append(reads, r)
			} else if !ok {
				reads = append(reads, r)
			}
		}
	}
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			switch x := ins.(type) {
			case *ssa.Field:
				if match(x.X.Type(), x.Field) && used(x) {
					reads = append(reads, x)
				}
			case *ssa.FieldAddr:
				if match(x.X.Type(), x.Field) {
					addr(x)
				}
			case *ssa.UnOp:
				if g, ok := x.X.(*ssa.Global); ok && o.glob != nil && o.owner == nil && g == o.glob && used(x) {
					reads = append(reads, x)
				}
			case *ssa.Store:
				if g, ok := x.Addr.(*ssa.Global); ok && o.glob != nil && o.owner == nil && g == o.glob {
					writes = append(writes, x)
				}
			}
		}
	}
	return
}

// used: the value has a use other than being discarded
func used(v ssa.Value) bool {
	for _, r := range *v.Referrers() {
		switch x := r.(type) {
		case *ssa.DebugRef:
		case *ssa.If:
			// a test of it that decides nothing
			b := x.Block()
			if b.Succs[0] != b.Succs[1] {
				return true
			}
		default:
			return true
		}
	}
	return false
}

// reachFns: what a function calls, and the functions it mentions
func (e *effects) from(fn *ssa.Function) map[*ssa.Function]bool { return e.reach([]*ssa.Function{fn}) }

var reOption = regexp.MustCompile(`--([A-Za-z][A-Za-z0-9-]*)`)

func runC28(c *Ctx) {
	e := newEffects(c.P)
	cmds := c.P.commands()
	if len(cmds) == 0 {
		c.Undecided("commands", "", "no command found")
		return
	}
	// options of main
	var globals []option
	var mains []*ssa.Function
	for _, fn := range c.P.fns {
		if fnPkg(fn) == nil || fnPkg(fn).Name() != "main" || fn.Name() == "init" || fn.Signature.Recv() != nil || fn.Synthetic != "" {
			continue
		}
		mains = append(mains, fn)
	}
	seen := map[*ssa.Function]bool{}
	for _, cm := range cmds {
		seen[cm.flagset] = true
	}
	for _, fn := range mains {
		globals = append(globals, c.P.registered(fn, seen, nil, func(where, why string) { c.Undecided("option/main", where, why) })...)
	}
	for _, o := range globals {
		c.counts["options"]++
		n := 0
		for _, fn := range mains {
			r, _ := c.P.accesses(fn, o)
			for _, ins := range r {
				// the default given at registration is a read too
				reg := false
				if v, ok := ins.(ssa.Value); ok && v.Referrers() != nil {
					for _, q := range *v.Referrers() {
						if cl, ok := q.(ssa.CallInstruction); ok && strings.Contains(calleeName(cl.Common()), "flag.FlagSet)") {
							reg = true
						}
					}
				}
				if cl, ok := ins.(ssa.CallInstruction); ok && strings.Contains(calleeName(cl.Common()), "flag.FlagSet)") {
					reg = true
				}
				if !reg {
					n++
				}
			}
		}
		if n == 0 {
			c.Fail("read/main/"+o.name, o.where, "the option --"+o.name+" is stored in "+o.field+", which nothing reads")
		} else {
			c.Pass("read/main/"+o.name, "--"+o.name+" is read by main")
		}
	}
	same := map[string]string{}
	for _, o := range globals {
		if n, dup := same[o.field]; dup && n != o.name {
			c.Fail("shared/main/"+o.name, o.where, "--"+o.name+" and --"+n+" share the variable "+o.field)
		}
		same[o.field] = o.name
	}
	for _, cm := range cmds {
		if cm.flagset == nil {
			c.Undecided("command/"+cm.t.String(), "", "no Flagset method")
			continue
		}
		c.counts["commands"]++
		name := cm.t.Obj().Name()
		cm.opts = c.P.registered(cm.flagset, map[*ssa.Function]bool{}, nil, func(where, why string) { c.Undecided("option/"+name, where, why) })
	}
	for _, cm := range cmds {
		name := cm.t.Obj().Name()
		rs := e.from(cm.exec)
		c.funcs[cm.exec.String()] = true
		for fn := range rs {
			c.funcs[fn.String()] = true
		}
		names := map[string]string{}
		for _, o := range globals {
			names[o.name] = o.where
		}
		fields := map[string]string{}
		for _, o := range cm.opts {
			c.counts["options"]++
			key := name + "/" + o.name
			if w, dup := names[o.name]; dup {
				c.Fail("name/"+key, o.where, "the option --"+o.name+" of "+name+" is registered twice (see "+w+"): parsing the command line panics")
			} else {
				c.Pass("name/"+key, "registered once")
			}
			names[o.name] = o.where
			if n, dup := fields[o.field]; dup && n != o.name {
				c.Fail("shared/"+key, o.where, "--"+o.name+" and --"+n+" of "+name+" share the variable "+o.field)
			} else {
				c.Pass("shared/"+key, o.field)
			}
			fields[o.field] = o.name
			// whose variable it is
			other := ""
			if o.owner != nil {
				for _, d := range cmds {
					if d != cm && types.Identical(d.t, o.owner) {
						other = d.t.Obj().Name()
					}
				}
			}
			if o.glob != nil && o.owner == nil {
				for _, d := range cmds {
					for _, q := range d.opts {
						if d != cm && q.glob == o.glob && q.owner == nil {
							other = d.t.Obj().Name()
						}
					}
				}
			}
			if other != "" {
				c.Fail("owner/"+key, o.where, "the option --"+o.name+" of "+name+" is stored in "+o.field+", which belongs to the command "+other)
				continue
			}
			c.Pass("owner/"+key, o.field+" belongs to "+name)
			n := 0
			for fn := range rs {
				r, w := c.P.accesses(fn, o)
				n += len(r)
				for _, ins := range w {
					if initOf(ins) {
						continue
					}
					if entryStore(fn, ins) {
						c.Fail("overwritten/"+key, c.P.pos(ins.Pos()), "the option --"+o.name+" of "+name+" is overwritten by "+fn.String())
					}
				}
			}
			if n == 0 && !unfinished(cm.exec) {
				c.Fail("read/"+key, o.where, "the option --"+o.name+" of "+name+" is stored in "+o.field+", which nothing that Execute calls reads: the option is ignored")
			} else {
				c.Pass("read/"+key, fmt.Sprintf("%s is read at %d places", o.field, n))
			}
		}
		// option sets of other commands
		for fn := range rs {
			for _, d := range cmds {
				if d == cm || rs[d.exec] {
					continue
				}
				for _, o := range d.opts {
					if o.owner == nil || !types.Identical(o.owner, d.t) {
						continue
					}
					if r, _ := c.P.accesses(fn, o); len(r) > 0 {
						c.Fail("foreign/"+name+"/"+d.t.Obj().Name(), c.P.pos(r[0].Pos()), "the command "+name+" reads the option --"+o.name+" of the command "+d.t.Obj().Name()+" in "+fn.String())
					}
				}
			}
		}
		// the options its help names
		if cm.help != nil {
			for _, b := range cm.help.Blocks {
				for _, ins := range b.Instrs {
					for _, op := range ins.Operands(nil) {
						s := ""
						if *op == nil {
							continue
						}
						if m, ok := (*op).(*ssa.MakeInterface); ok {
							s, _ = constStr(m.X)
						} else {
							s, _ = constStr(*op)
						}
						for _, m := range reOption.FindAllStringSubmatch(s, -1) {
							if _, ok := names[m[1]]; !ok {
								c.Fail("help/"+name+"/"+m[1], c.P.pos(ins.Pos()), "the help of "+name+" names an option --"+m[1]+" that the command does not have")
							} else {
								c.Pass("help/"+name+"/"+m[1], "exists")
							}
						}
					}
				}
			}
		}
	}
	// the table of commands
	tab := map[string]string{}
	for _, fn := range c.P.fns {
		if fn.Name() != "init" || fnPkg(fn) == nil || fnPkg(fn).Name() != "main" {
			continue
		}
		rows := map[ssa.Value]*[2]string{}
		var order []ssa.Value
		row := func(v ssa.Value) *[2]string {
			if rows[v] == nil {
				rows[v] = &[2]string{}
				order = append(order, v)
			}
			return rows[v]
		}
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				s, ok := ins.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := s.Addr.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				if k, ok := constStr(s.Val); ok {
					row(fa.X)[0] = k
				}
				if m, ok := s.Val.(*ssa.MakeInterface); ok {
					if g, ok := m.X.(*ssa.Global); ok {
						row(fa.X)[1] = g.String()
					}
				}
			}
		}
		for _, v := range order {
			r := rows[v]
			if r[0] == "" || r[1] == "" {
				continue
			}
			if g, dup := tab[r[0]]; dup {
				c.Fail("table/"+r[0], "", "the command "+r[0]+" is listed twice: "+g+" and "+r[1])
				continue
			}
			for n, g := range tab {
				if g == r[1] && n != r[0] {
					c.Fail("table/"+r[0], "", "the commands "+n+" and "+r[0]+" both run "+g)
				}
			}
			tab[r[0]] = r[1]
			c.Pass("table/"+r[0], r[1])
			c.counts["command names"]++
		}
	}
}

// initOf: the store copies a parameter into its variable, or builds a struct
func initOf(ins ssa.Instruction) bool {
	s := ins.(*ssa.Store)
	_, ok := s.Val.(*ssa.Parameter)
	return ok
}

// entryStore: the store replaces the option whatever its value: it is not under a test of the option
func entryStore(fn *ssa.Function, ins ssa.Instruction) bool {
	b := ins.Block()
	if b == fn.Blocks[0] {
		s := ins.(*ssa.Store)
		fa, ok := s.Addr.(*ssa.FieldAddr)
		if !ok {
			return true
		}
		if a, ok := fa.X.(*ssa.Alloc); ok { // a struct of the function's own
			for _, r := range *a.Referrers() {
				if st, ok := r.(*ssa.Store); ok && st.Addr == a {
					if _, ok := st.Val.(*ssa.Parameter); ok {
						_, isConst := s.Val.(*ssa.Const)
						return isConst
					}
				}
			}
			return false
		}
		_, isConst := s.Val.(*ssa.Const)
		return isConst
	}
	return false
}

// unfinished: the command calls a function that always fails, so that there is nothing its options could affect
func unfinished(exec *ssa.Function) bool {
	fails := func(fn *ssa.Function) bool {
		if fn == nil || !isErrT(fn) {
			return false
		}
		n := 0
		for _, b := range fn.Blocks {
			r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
			if !ok {
				continue
			}
			n++
			cl, ok := r.Results[len(r.Results)-1].(*ssa.Call)
			if !ok || (calleeName(&cl.Call) != "fmt.Errorf" && calleeName(&cl.Call) != "errors.New") {
				return false
			}
		}
		return n > 0
	}
	for _, b := range exec.Blocks {
		for _, ins := range b.Instrs {
			if cl, ok := ins.(*ssa.Call); ok && fails(cl.Call.StaticCallee()) {
				return true
			}
		}
	}
	return false
}
