package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Config is one build configuration of the repository.
type Config struct {
	Name string
	Tags string
	Env  []string
}

// Program is the type-checked program of one build configuration.
type Program struct {
	cfg     Config
	repo    string
	fset    *token.FileSet
	pkgs    []*packages.Package
	prog    *ssa.Program
	water   *ssa.Package
	binding *ssa.Package
	module  string
	mods    map[*types.Package]bool
	failing map[*ssa.Function]bool // whether every return is a non-nil error
	globals map[*ssa.Global]bool   // never modified after initialisation

	ctxT *types.Named
	role *Roles

	modCache map[string]bool
	convOK   bool                   // conversions of handler lists keep the length
	pathF    string                 // field of a route the context reports
	makers   map[*ssa.Function]bool // constructors of tree nodes
	convs    map[string]bool        // their names
}

func loadProgram(repo string, cfg Config, scratch string) (*Program, error) {
	// go.mod and go.sum are copied so that nothing in the repository is touched
	mod := filepath.Join(scratch, "go.mod")
	for _, f := range []string{"go.mod", "go.sum"} {
		b, err := os.ReadFile(filepath.Join(repo, f))
		if err != nil {
			return nil, err
		}
		if err := os.WriteFile(filepath.Join(scratch, f), b, 0o600); err != nil {
			return nil, err
		}
	}
	env := append(os.Environ(), "GOFLAGS=-mod=mod -modfile="+mod, "GOWORK=off", "GOPROXY=off", "GOSUMDB=off", "GOTOOLCHAIN=local")
	env = append(env, cfg.Env...)
	pc := &packages.Config{
		Mode: packages.LoadSyntax | packages.NeedModule,
		Dir:  repo, Env: env, Tests: false,
	}
	if cfg.Tags != "" {
		pc.BuildFlags = []string{"-tags=" + cfg.Tags}
	}
	pkgs, err := packages.Load(pc, "./...")
	if err != nil {
		return nil, err
	}
	// functions that are new are written out where they are called
	for n, round := 0, 0; round < 20 && !hasErrors(pkgs) && os.Getenv("WATERCHECK_PLAIN") == ""; round++ {
		ov := expandHelpers(pkgs, pc.Overlay, &n)
		if ov == nil {
			break
		}
		nc := *pc
		nc.Overlay = ov
		np, err := packages.Load(&nc, "./...")
		if err != nil || hasErrors(np) {
			if os.Getenv("WATERCHECK_DEBUG") != "" {
				for _, p := range np {
					fmt.Fprintln(os.Stderr, "expand:", round, err, p.Errors)
				}
				for f, b := range ov {
					os.WriteFile(filepath.Join(os.TempDir(), "expand_"+filepath.Base(f)), b, 0o600)
				}
			}
			break
		}
		pc, pkgs = &nc, np
		if os.Getenv("WATERCHECK_DEBUG") != "" {
			k := 0
			for f := range declaredIn(np) {
				if !strings.Contains("\n"+knownFunctions, "\n"+f+"\n") {
					k++
					if round > 0 {
						fmt.Fprintln(os.Stderr, "left:", f)
					}
				}
			}
			fmt.Fprintln(os.Stderr, "expand: round", round, "calls", n, "left", k)
		}
	}
	if d := os.Getenv("WATERCHECK_DUMP"); d != "" && cfg.Tags == "" {
		for f, b := range pc.Overlay {
			if r, err := filepath.Rel(repo, f); err == nil {
				os.WriteFile(filepath.Join(d, r), b, 0o600)
			}
		}
	}
	var errs []string
	var use []*packages.Package
	for _, p := range pkgs {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
		if len(p.GoFiles) > 0 {
			use = append(use, p)
		}
	}
	if len(errs) > 0 {
		return nil, fmt.Errorf("the repository does not type-check (%s): %s", cfg.Name, strings.Join(errs, "; "))
	}
	prog, spkgs := ssautil.Packages(use, ssa.InstantiateGenerics)
	prog.Build()
	p := &Program{cfg: cfg, repo: repo, fset: prog.Fset, pkgs: use, prog: prog, mods: map[*types.Package]bool{}}
	for i, sp := range spkgs {
		if sp == nil {
			return nil, fmt.Errorf("no SSA for %s", use[i].PkgPath)
		}
		p.mods[sp.Pkg] = true
		switch sp.Pkg.Name() {
		case "water":
			p.water = sp
			p.module = sp.Pkg.Path()
		case "binding":
			p.binding = sp
		}
	}
	if p.water == nil || p.binding == nil {
		return nil, fmt.Errorf("packages water and binding not found in %s", repo)
	}
	p.findConstGlobals()
	return p, nil
}

func declaredIn(pkgs []*packages.Package) map[string]bool {
	r := map[string]bool{}
	for _, p := range pkgs {
		for _, f := range p.Syntax {
			for _, d := range f.Decls {
				if fd, ok := d.(*ast.FuncDecl); ok {
					r[declKey(p, fd)] = true
				}
			}
		}
	}
	return r
}

func hasErrors(pkgs []*packages.Package) bool {
	for _, p := range pkgs {
		if len(p.Errors) > 0 {
			return true
		}
	}
	return false
}

func (p *Program) isModulePkg(t *types.Package) bool { return p.mods[t] }

func (p *Program) inModule(f *ssa.Function) bool {
	for g := f; g != nil; g = g.Parent() {
		if g.Pkg != nil {
			return p.mods[g.Pkg.Pkg]
		}
		if o := g.Object(); o != nil && o.Pkg() != nil {
			return p.mods[o.Pkg()]
		}
		if g.Synthetic != "" && g.Signature.Recv() != nil {
			t := g.Signature.Recv().Type()
			if d := derefT(t); d != nil {
				t = d
			}
			if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
				return p.mods[n.Obj().Pkg()]
			}
		}
		if len(g.FreeVars) > 0 && strings.HasPrefix(g.Synthetic, "bound method wrapper") {
			t := g.FreeVars[0].Type()
			if d := derefT(t); d != nil {
				t = d
			}
			if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
				return p.mods[n.Obj().Pkg()]
			}
		}
	}
	return false
}

// Funcs returns all module functions with a body, including methods and
// closures.
func (p *Program) Funcs() []*ssa.Function {
	seen := map[*ssa.Function]bool{}
	var out []*ssa.Function
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f == nil || seen[f] || len(f.Blocks) == 0 {
			return
		}
		seen[f] = true
		out = append(out, f)
		for _, a := range f.AnonFuncs {
			add(a)
		}
	}
	for _, sp := range []*ssa.Package{p.water, p.binding} {
		for _, m := range sp.Members {
			switch m := m.(type) {
			case *ssa.Function:
				add(m)
			case *ssa.Type:
				for _, t := range []types.Type{m.Type(), types.NewPointer(m.Type())} {
					ms := p.prog.MethodSets.MethodSet(t)
					for i := 0; i < ms.Len(); i++ {
						f := p.prog.MethodValue(ms.At(i))
						if f != nil && f.Synthetic == "" && p.inModule(f) {
							add(f)
						}
					}
				}
			}
		}
	}
	sort.Slice(out, func(i, j int) bool {
		if out[i].Pos() != out[j].Pos() {
			return out[i].Pos() < out[j].Pos()
		}
		return out[i].String() < out[j].String()
	})
	return out
}

func (p *Program) isInit(f *ssa.Function) bool {
	for g := f; g != nil; g = g.Parent() {
		if g.Name() == "init" || strings.HasPrefix(g.Name(), "init#") {
			return g.Signature.Recv() == nil
		}
	}
	return false
}

// findConstGlobals finds the package variables nothing writes after package
// initialisation.
func (p *Program) findConstGlobals() {
	p.globals = map[*ssa.Global]bool{}
	for _, sp := range []*ssa.Package{p.water, p.binding} {
		for _, m := range sp.Members {
			if g, ok := m.(*ssa.Global); ok && !token.IsExported(g.Name()) {
				p.globals[g] = true
			}
		}
	}
	var base func(v ssa.Value) *ssa.Global
	base = func(v ssa.Value) *ssa.Global {
		for i := 0; i < 20; i++ {
			switch x := v.(type) {
			case *ssa.Global:
				return x
			case *ssa.FieldAddr:
				v = x.X
			case *ssa.IndexAddr:
				v = x.X
			case *ssa.UnOp:
				v = x.X
			case *ssa.Slice:
				v = x.X
			case *ssa.ChangeType:
				v = x.X
			case *ssa.Lookup:
				v = x.X
			default:
				return nil
			}
		}
		return nil
	}
	for _, f := range p.Funcs() {
		if p.isInit(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Store:
					if g := base(x.Addr); g != nil {
						delete(p.globals, g)
					}
					if g, ok := x.Val.(*ssa.Global); ok {
						delete(p.globals, g)
					}
				case *ssa.MapUpdate:
					if g := base(x.Map); g != nil {
						delete(p.globals, g)
					}
				case ssa.CallInstruction:
					for _, a := range x.Common().Args {
						if g, ok := a.(*ssa.Global); ok {
							delete(p.globals, g)
						}
						if bi, ok := x.Common().Value.(*ssa.Builtin); ok && (bi.Name() == "delete" || bi.Name() == "copy" || bi.Name() == "clear") {
							if g := base(x.Common().Args[0]); g != nil {
								delete(p.globals, g)
							}
						}
					}
				}
			}
		}
	}
}

// initial returns the state after package initialisation, with the content of
// the variables that never change afterwards.
func (it *Interp) initial() *State {
	s := newState()
	h := it.hooks
	it.hooks = Hooks{}
	// the initialiser of package water runs that of package binding
	for _, sp := range []*ssa.Package{it.p.water} {
		f := sp.Func("init")
		if f == nil || len(f.Blocks) == 0 {
			continue
		}
		st := newState()
		for _, q := range []*ssa.Package{it.p.binding, it.p.water} {
			if g, ok := q.Members["init$guard"].(*ssa.Global); ok {
				st.mem[it.in.mk(Expr{Op: OpGlobal, Glob: g, Typ: g.Type()})] = it.in.boolc(false)
			}
		}
		exits := it.Run(f, st, nil, nil)
		var ok []*State
		for _, e := range exits {
			if !e.panic {
				ok = append(ok, e.st)
			}
		}
		if len(ok) != 1 {
			continue
		}
		e := ok[0]
		keep := map[*Expr]bool{} // objects reachable from constant globals
		var reach func(v *Expr)
		reach = func(v *Expr) {
			if v == nil {
				return
			}
			it.in.walk(v, func(x *Expr) bool {
				if (x.Op == OpAlloc || x.Op == OpMake || x.Op == OpGlobal) && !keep[x] {
					if x.Op == OpGlobal && !it.p.globals[x.Glob] {
						return false
					}
					keep[x] = true
					for _, c := range sortedExprs(e.mem) {
						if addrRoot(c) == x {
							reach(e.mem[c])
						}
					}
				}
				return true
			})
		}
		for _, c := range sortedExprs(e.mem) {
			if r := addrRoot(c); r.Op == OpGlobal && it.p.globals[r.Glob] {
				reach(r)
			}
		}
		for c, v := range e.mem {
			if keep[addrRoot(c)] {
				s.mem[c] = v
			}
		}
		// content reported through exported defaults keeps its identity
		for c, v := range e.mem {
			if r := addrRoot(c); r.Op == OpGlobal && !it.p.globals[r.Glob] || r.Op != OpGlobal && !keep[r] {
				it.globals[c] = v
			}
		}
	}
	it.hooks = h
	it.steps = 0
	it.paths = 0
	return s
}

func (it *Interp) globalInit(a *Expr) *Expr               { return nil }
func (it *Interp) mapInit(m, k *Expr, t types.Type) *Expr { return nil }
func (p *Program) pos(pos token.Pos) string {
	if !pos.IsValid() {
		return "?"
	}
	q := p.fset.Position(pos)
	if r, err := filepath.Rel(p.repo, q.Filename); err == nil {
		q.Filename = r
	}
	return fmt.Sprintf("%s:%d", q.Filename, q.Line)
}

// method finds a method of a named type of package water.
func (p *Program) method(sp *ssa.Package, typ, name string) *ssa.Function {
	m, ok := sp.Members[typ].(*ssa.Type)
	if !ok {
		return nil
	}
	for _, t := range []types.Type{types.NewPointer(m.Type()), m.Type()} {
		ms := p.prog.MethodSets.MethodSet(t)
		for i := 0; i < ms.Len(); i++ {
			if ms.At(i).Obj().Name() == name {
				f := p.prog.MethodValue(ms.At(i))
				// prefer the declared method to a pointer wrapper
				if f != nil && f.Synthetic != "" {
					if d := p.prog.FuncValue(ms.At(i).Obj().(*types.Func)); d != nil {
						return d
					}
				}
				return f
			}
		}
	}
	return nil
}

func (p *Program) fn(sp *ssa.Package, name string) *ssa.Function {
	f, _ := sp.Members[name].(*ssa.Function)
	return f
}

func (p *Program) named(sp *ssa.Package, name string) *types.Named {
	if m, ok := sp.Members[name].(*ssa.Type); ok {
		n, _ := m.Type().(*types.Named)
		return n
	}
	return nil
}
