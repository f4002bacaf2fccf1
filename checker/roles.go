package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Roles names the parts of the code base the rules talk about. Exported names
// are part of the API; everything unexported is found by what it is used for.
type Roles struct {
	ctx, engine, router       *types.Named
	handler                   *types.Named // interface Handler
	written, status, handlers string       // context fields
	index                     string
	ctxFields                 *types.Struct
	node, route               *types.Named
	next, serve               *ssa.Function
	write, writeHeader        *ssa.Function
	add, match                *ssa.Function
}

// fieldsLoaded lists the fields of recv that f, or what it calls, touches.
func (p *Program) fieldsLoaded(f *ssa.Function, recv types.Type) map[string]types.Type {
	out := map[string]types.Type{}
	p.reach(f, func(in ssa.Instruction) {
		if fa, ok := in.(*ssa.FieldAddr); ok && types.Identical(derefT(fa.X.Type()), recv) {
			st := recv.Underlying().(*types.Struct)
			out[st.Field(fa.Field).Name()] = st.Field(fa.Field).Type()
		}
	})
	return out
}

// reach visits the instructions of f, of the module functions it calls and of
// the function literals in them.
func (p *Program) reach(f *ssa.Function, visit func(ssa.Instruction)) {
	seen := map[*ssa.Function]bool{}
	var rec func(f *ssa.Function)
	rec = func(f *ssa.Function) {
		if f == nil || seen[f] || !p.inModule(f) {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				visit(in)
				switch x := in.(type) {
				case ssa.CallInstruction:
					rec(x.Common().StaticCallee())
				case *ssa.MakeClosure:
					g, _ := x.Fn.(*ssa.Function)
					rec(g)
				}
			}
		}
	}
	rec(f)
}

func (p *Program) findRoles() string {
	r := &Roles{}
	p.role = r
	r.ctx, r.engine, r.router = p.named(p.water, "Context"), p.named(p.water, "Engine"), p.named(p.water, "Router")
	r.handler = p.named(p.water, "Handler")
	if r.ctx == nil || r.engine == nil || r.router == nil || r.handler == nil {
		return "types Context, Engine, Router and Handler of package water"
	}
	p.ctxT = r.ctx
	st, ok := r.ctx.Underlying().(*types.Struct)
	if !ok {
		return "struct Context"
	}
	r.ctxFields = st
	r.next = p.method(p.water, "Context", "Next")
	r.serve = p.method(p.water, "Engine", "ServeHTTP")
	r.write = p.method(p.water, "Context", "Write")
	r.writeHeader = p.method(p.water, "Context", "WriteHeader")
	w, s := p.method(p.water, "Context", "Written"), p.method(p.water, "Context", "Status")
	if r.next == nil || r.serve == nil || w == nil || s == nil || r.write == nil || r.writeHeader == nil {
		return "methods Next, Written, Status, Write, WriteHeader of Context and ServeHTTP of Engine"
	}
	for f, t := range p.fieldsLoaded(w, r.ctx) {
		if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsBoolean != 0 {
			r.written = f
		}
	}
	for f, t := range p.fieldsLoaded(s, r.ctx) {
		if isInteger(t) {
			r.status = f
		}
	}
	for i := 0; i < st.NumFields(); i++ {
		if sl, ok := st.Field(i).Type().Underlying().(*types.Slice); ok && types.Identical(sl.Elem(), r.handler) {
			r.handlers = st.Field(i).Name()
		}
	}
	if r.written == "" || r.status == "" || r.handlers == "" {
		return "context fields reported by Written and Status, and its handler list"
	}
	// position: the integer field Next (or what it calls) advances
	p.reach(r.next, func(in ssa.Instruction) {
		if x, ok := in.(*ssa.Store); ok {
			if fa, ok := x.Addr.(*ssa.FieldAddr); ok && types.Identical(derefT(fa.X.Type()), r.ctx) {
				if fl := st.Field(fa.Field); isInteger(fl.Type()) && fl.Name() != r.status {
					r.index = fl.Name()
				}
			}
		}
	})
	if r.index == "" {
		return "context field Next advances"
	}
	// route tree node: result of the method named Match / add (names fixed by
	// the package's own tests)
	for _, m := range p.water.Members {
		t, ok := m.(*ssa.Type)
		if !ok {
			continue
		}
		if a, b := p.method(p.water, t.Name(), "add"), p.method(p.water, t.Name(), "Match"); a != nil && b != nil {
			r.node, _ = t.Type().(*types.Named)
			r.add, r.match = a, b
		}
	}
	if r.node == nil {
		return "route tree type with methods add and Match"
	}
	return ""
}

// isHandlerCall reports whether ev starts a user handler: a call of
// Handler.ServeHTTP on a handler the analysis does not know.
func (p *Program) isHandlerCall(ev *CallEv) bool {
	if ev.Fn != nil && !ev.Cut {
		return false
	}
	if ev.Kind == "defer-stmt" {
		return false
	}
	if ev.Invoke && ev.Method == "ServeHTTP" && len(ev.Args) == 2 && types.Identical(derefT(ev.Args[1].Typ), p.role.ctx) {
		return true
	}
	// dynamic call of a func(*Context)
	if ev.Name == "" && ev.Callee != nil {
		if sig, ok := ev.Callee.Typ.Underlying().(*types.Signature); ok && sig.Params().Len() == 1 && sig.Results().Len() == 0 &&
			types.Identical(derefT(sig.Params().At(0).Type()), p.role.ctx) {
			return true
		}
	}
	return false
}

func (p *Program) isCtxPtr(e *Expr) bool {
	return e != nil && e.Typ != nil && types.Identical(derefT(e.Typ), p.role.ctx)
}
