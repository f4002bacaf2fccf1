package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C43", "Every exported method of the context and of the parameters, every exported function and every request handler the package builds (middleware, static serving, adapters) is interpreted with symbolic arguments: each index and slice must be known to be within its length, each pointer, interface and function value known to be there before it is used, "+
		"each assertion known to hold, on every path; what the program itself hands over and what net/http guarantees of a request is taken as given.",
		map[string]int{"method": 30, "handler": 4, "function": 5, "index": 2, "deref": 20}, c43)
}

func c43(p *Program, r *Report) {
	for _, f := range p.Funcs() {
		if f.Pkg != p.water || f.Synthetic != "" || len(f.Blocks) == 0 || f == p.role.serve {
			continue
		}
		switch {
		case f.Parent() == nil && len(f.Params) > 0 && p.isCtxPtrT(f.Params[0].Type()) && f.Signature.Recv() != nil && f.Object() != nil && f.Object().Exported():
			c43Fn(p, r, f, "method")
		case f.Parent() == nil && f.Object() != nil && f.Object().Exported() && !p.builds(f):
			c43Fn(p, r, f, "function")
		case f.Parent() != nil && len(f.Params) == 1 && p.isCtxPtrT(f.Params[0].Type()) && f.Signature.Results().Len() == 0:
			c43Fn(p, r, f, "handler")
		}
	}
}

func (p *Program) isCtxPtrT(t types.Type) bool {
	q, ok := t.Underlying().(*types.Pointer)
	return ok && types.Identical(q.Elem(), p.role.ctx)
}

func c43Fn(p *Program, r *Report, f *ssa.Function, rule string) {
	it := newInterp(p)
	in := it.in
	st := it.initial()
	args := it.Params(f)
	name := p.fnName(f)
	r.ok(rule, name)
	for _, a := range args {
		switch a.Typ.Underlying().(type) {
		case *types.Pointer, *types.Interface, *types.Signature, *types.Map:
			st.facts[in.eq(a, in.zero(a.Typ))] = false
		}
	}
	g := &guards{p: p, r: r, it: it, name: name}
	g.trust = func(s *State, e *Expr) bool {
		e = stripChange(e)
		if e.Op == OpAssertOk {
			return false
		}
		if e.Op == OpInit && e.Args[0].Op == OpFieldAddr {
			switch e.Typ.Underlying().(type) {
			case *types.Signature:
				return false // an option that may be left out
			}
			switch k := typeKey(e.Typ); {
			case strings.HasSuffix(k, "net/http.Request"), strings.HasSuffix(k, "net/url.URL"), k == "net/http.Header", k == "io.ReadCloser", k == "net/http.ResponseWriter":
				return true // a request comes with them
			case e.Args[0].Name == p.role.status:
				return true
			}
			// the context's own fields and what an engine or a route was built with
			b := e.Args[0].Args[0]
			if p.isCtxPtr(b) {
				// a request that matched no route has no node
				_, ptr := e.Typ.Underlying().(*types.Pointer)
				return !ptr
			}
			if types.IsInterface(e.Typ) || p.builtType(b.Typ) {
				return true
			}
		}
		// a result comes with a nil error, or cannot be missing
		if e.Op == OpExtract && (e.Args[0].Op == OpRes || e.Args[0].Op == OpCall) {
			if t, ok := e.Args[0].Typ.(*types.Tuple); ok && t.Len() > 1 && isErrorT(t.At(t.Len()-1).Type()) {
				return it.nilness(s, it.extract(e.Args[0], t.Len()-1, t.At(t.Len()-1).Type())) == 1
			}
			return false
		}
		if e.Op == OpRes || e.Op == OpCall {
			return true
		}
		// the chain, and what the package starts with
		if e.Op == OpInit && (types.Identical(e.Typ, p.role.handler) || e.Args[0].Op == OpGlobal) {
			return true
		}
		// what a handler was made with was checked then
		if e.Op == OpInit && strings.HasPrefix(e.Args[0].String(), "free:") || e.Op == OpParam {
			return true
		}
		return false
	}
	g.install()
	idx := it.hooks.Index
	it.hooks.Index = func(s *State, fr *Frame, base, i *Expr, instr ssa.Instruction) {
		b := strip(base)
		// the chain, which the dispatcher hands over
		if b.Op == OpInit && b.Args[0].Op == OpFieldAddr && p.isCtxPtr(b.Args[0].Args[0]) && isListOf(b.Typ, p.role.handler) {
			return
		}
		// the parser makes no entry without a value
		if k, ok := i.constInt(); ok && k == 0 && (b.Op == OpLookup || b.Op == OpExtract && b.Args[0].Op == OpRes && strings.HasPrefix(b.Args[0].Name, "next") || b.Op == OpRes && b.Name == "next.v") {
			m := b.Args[0]
			if b.Op == OpLookup && isFormMap(m.Typ) && b.Args[1].Op == OpRes && b.Args[1].Name == "next.k" {
				return
			}
		}
		idx(s, fr, base, i, instr)
	}
	it.hooks.Opaque = func(h *ssa.Function, ev *CallEv) bool {
		return h.Pkg == p.binding || h != f && h.Signature.Recv() != nil && h.Object() != nil && h.Object().Exported() && p.isCtxPtrT(h.Signature.Recv().Type())
	}
	it.hooks.Call = func(s *State, ev *CallEv) {
		if strings.Contains(ev.Name, "reflect.") {
			return
		}
		g.call(s, ev)
	}
	for _, e := range it.startWith(f, st, args) {
		if e.panic {
			// a refusal of the program's own mistake, which no middleware makes
			if rule == "handler" {
				r.fail("raise", name, e.pos, e.st, "a handler the package supplies gives up on a request by panicking")
			}
			continue
		}
		r.ok("exit", p.pos(e.pos)+name)
	}
	r.absorb(it, name)
}

// builtType: t points to one of the package's own types.
func (p *Program) builtType(t types.Type) bool {
	n, ok := derefOr(t).(*types.Named)
	return ok && n.Obj().Pkg() == p.water.Pkg && !n.Obj().Exported()
}

// builds: f is called by the program while it sets up, not for a request.
func (p *Program) builds(f *ssa.Function) bool {
	if rc := f.Signature.Recv(); rc != nil {
		n, ok := derefOr(rc.Type()).(*types.Named)
		if !ok || n.Obj().Name() == "Router" || types.Identical(n, p.role.engine) || types.Identical(n, p.role.node) {
			return true
		}
		// values the program stored itself, with types of its own
		m, ok := n.Underlying().(*types.Map)
		return ok && types.IsInterface(m.Elem())
	}
	return false
}

func isListOf(t, elem types.Type) bool {
	l, ok := t.Underlying().(*types.Slice)
	return ok && types.Identical(l.Elem(), elem)
}
