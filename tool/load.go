package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type Program struct {
	Dir    string
	Mod    string
	Fset   *token.FileSet
	Prog   *ssa.Program
	Pkgs   []*packages.Package // repository packages
	byPath map[string]*ssa.Package
	order  []*ssa.Package // dependency order
	lc     map[*ssa.Function]*loopInfo
	fns    []*ssa.Function
}

type loop struct {
	header *ssa.BasicBlock
	body   map[*ssa.BasicBlock]bool
	latch  []*ssa.BasicBlock
}

type loopInfo struct {
	rpo      map[*ssa.BasicBlock]int
	byHeader map[*ssa.BasicBlock]*loop
	loops    []*loop
}

func LoadProgram(dir string) (*Program, error) {
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: dir, Env: append(os.Environ(), "GOFLAGS=-mod=readonly", "GOPROXY=off", "GOWORK=off")}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	bad := ""
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			if bad == "" {
				bad = e.Error()
			}
		}
	})
	if bad != "" {
		return nil, fmt.Errorf("repository does not type-check: %s", bad)
	}
	if len(pkgs) == 0 {
		return nil, fmt.Errorf("no packages")
	}
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	p := &Program{Dir: dir, Fset: prog.Fset, Prog: prog, Pkgs: pkgs, byPath: map[string]*ssa.Package{}, lc: map[*ssa.Function]*loopInfo{}}
	p.Mod = "github.com/transcriptaze/midiasm"
	for _, q := range pkgs {
		if q.Module != nil {
			p.Mod = q.Module.Path
			break
		}
	}
	for _, q := range prog.AllPackages() {
		p.byPath[q.Pkg.Path()] = q
	}
	seen := map[*types.Package]bool{}
	var visit func(t *types.Package)
	visit = func(t *types.Package) {
		if seen[t] {
			return
		}
		seen[t] = true
		imps := append([]*types.Package{}, t.Imports()...)
		sort.Slice(imps, func(i, j int) bool { return imps[i].Path() < imps[j].Path() })
		for _, i := range imps {
			visit(i)
		}
		if p.isRepoPkg(t) {
			if s := p.byPath[t.Path()]; s != nil {
				p.order = append(p.order, s)
			}
		}
	}
	sort.Slice(pkgs, func(i, j int) bool { return pkgs[i].PkgPath < pkgs[j].PkgPath })
	for _, q := range pkgs {
		visit(q.Types)
	}
	for fn := range ssautil.AllFunctions(prog) {
		if p.isRepoFn(fn) && fn.Blocks != nil {
			p.fns = append(p.fns, fn)
		}
	}
	sort.Slice(p.fns, func(i, j int) bool {
		a, b := p.fns[i].String(), p.fns[j].String()
		if a != b {
			return a < b
		}
		return p.fns[i].Pos() < p.fns[j].Pos()
	})
	return p, nil
}

func (p *Program) isRepoPkg(t *types.Package) bool {
	return t != nil && (t.Path() == p.Mod || strings.HasPrefix(t.Path(), p.Mod+"/"))
}

func fnPkg(fn *ssa.Function) *types.Package {
	for f := fn; f != nil; f = f.Parent() {
		if f.Pkg != nil {
			return f.Pkg.Pkg
		}
		if o := f.Origin(); o != nil && o.Pkg != nil {
			return o.Pkg.Pkg
		}
		if o := f.Object(); o != nil && o.Pkg() != nil {
			return o.Pkg()
		}
	}
	return nil
}

func (p *Program) isRepoFn(fn *ssa.Function) bool { return p.isRepoPkg(fnPkg(fn)) }

func (p *Program) pkg(rel string) *ssa.Package {
	if rel == "" {
		return p.byPath[p.Mod]
	}
	return p.byPath[p.Mod+"/"+rel]
}

func (p *Program) typ(rel, name string) types.Type {
	q := p.pkg(rel)
	if q == nil {
		return nil
	}
	o := q.Pkg.Scope().Lookup(name)
	if o == nil {
		return nil
	}
	return o.Type()
}

func (p *Program) fn(rel, name string) *ssa.Function {
	q := p.pkg(rel)
	if q == nil {
		return nil
	}
	return q.Func(name)
}

// method finds a method of the type (or its pointer)
func (p *Program) method(t types.Type, name string) *ssa.Function {
	for _, u := range []types.Type{t, types.NewPointer(t)} {
		ms := p.Prog.MethodSets.MethodSet(u)
		for i := 0; i < ms.Len(); i++ {
			if ms.At(i).Obj().Name() == name {
				return p.Prog.MethodValue(ms.At(i))
			}
		}
	}
	return nil
}

// methodOf finds a method in the method set of exactly this type
func (p *Program) methodOf(t types.Type, name string) *ssa.Function {
	if types.IsInterface(t) {
		return nil
	}
	ms := p.Prog.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			return p.Prog.MethodValue(ms.At(i))
		}
	}
	return nil
}

func (p *Program) pos(pos token.Pos) string {
	if !pos.IsValid() {
		return "?"
	}
	q := p.Fset.Position(pos)
	return fmt.Sprintf("%s:%d", strings.TrimPrefix(strings.TrimPrefix(q.Filename, p.Dir), "/"), q.Line)
}

func (p *Program) loops(fn *ssa.Function) *loopInfo {
	if l, ok := p.lc[fn]; ok {
		return l
	}
	li := &loopInfo{rpo: map[*ssa.BasicBlock]int{}, byHeader: map[*ssa.BasicBlock]*loop{}}
	var post []*ssa.BasicBlock
	seen := map[*ssa.BasicBlock]bool{}
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for _, s := range b.Succs {
			if !seen[s] {
				dfs(s)
			}
		}
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	for i := range post {
		li.rpo[post[len(post)-1-i]] = i
	}
	for _, b := range post {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := li.byHeader[s]
				if l == nil {
					l = &loop{header: s, body: map[*ssa.BasicBlock]bool{s: true}}
					li.byHeader[s] = l
					li.loops = append(li.loops, l)
				}
				l.latch = append(l.latch, b)
				var up func(x *ssa.BasicBlock)
				up = func(x *ssa.BasicBlock) {
					if l.body[x] {
						return
					}
					l.body[x] = true
					for _, q := range x.Preds {
						if seen[q] {
							up(q)
						}
					}
				}
				up(b)
			}
		}
	}
	// order blocks so that every loop body is processed before what follows it: plain RPO places the loop exit possibly
	// before the body, which is harmless because loops are executed as a unit
	p.lc[fn] = li
	return li
}

// initGlobals interprets the package initialisers to obtain the contents of the package level tables
func (in *Interp) initGlobals() {
	in.loadEmbeds()
	st := newState()
	st.base = in.base
	save := in.hook
	in.hook = func(in *Interp, st *State, fn *ssa.Function, args []Val) ([]callRes, bool) {
		if fn.Name() == "init" && fn.Signature.Recv() == nil && fn.Parent() == nil && len(in.stack) > 0 {
			return one(st, &TupleV{}), true
		}
		return nil, false
	}
	defer func() { in.hook = save }()
	for _, q := range in.P.order {
		f := q.Func("init")
		if f == nil || f.Blocks == nil {
			continue
		}
		outs := in.execFn(f, nil, nil, st, nil)
		if len(outs) == 0 {
			continue
		}
		// the guard branch gives one real outcome
		st = outs[len(outs)-1].st
		for _, o := range outs {
			if len(o.st.heap) > len(st.heap) {
				st = o.st
			}
		}
	}
	for id, v := range st.heap {
		in.base[id] = v
	}
	in.obls = map[string]*Obl{}
	in.funcs = map[*ssa.Function]bool{}
}

// extType finds a named type of a package outside the repository
func (p *Program) extType(path, name string) types.Type {
	for _, k := range p.Prog.AllPackages() {
		if k.Pkg.Path() == path {
			if o, ok := k.Pkg.Scope().Lookup(name).(*types.TypeName); ok {
				return o.Type()
			}
		}
	}
	return nil
}
