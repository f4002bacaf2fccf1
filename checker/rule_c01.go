package main

import (
	"go/token"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C01", "Every path through Engine.ServeHTTP is interpreted over SSA with the context taken from the pool holding arbitrary old values. "+
		"At every place where user handlers can start, each field of the context must have been assigned on that path from values that do not derive from the old content "+
		"(environment and parameter maps must be objects created for this request, or nil); fields may instead be proven zero at every return to the pool. "+
		"Typestate: after Put no use of the context, one Put per path, no handler start after Put, Put only of the context taken; pooled constructor yields a zero context.",
		map[string]int{"established": 5, "pool-put": 1, "pool-new": 1}, c01)
}

func c01(p *Program, r *Report) {
	it := newInterp(p)
	st := it.initial()
	fields := p.role.ctxFields
	type bad struct {
		s   *State
		pos token.Pos
		msg string
	}
	stale := map[string]*bad{}
	handlerSeen := map[string]bool{}
	putSeen := false
	cleanAtPut := map[string]bool{}
	for i := 0; i < fields.NumFields(); i++ {
		cleanAtPut[fields.Field(i).Name()] = true
	}
	isCtx := func(e *Expr) bool {
		return p.isCtxPtr(e) && it.in.mentions(e, func(x *Expr) bool { return x.Op == OpRes && x.Name == "(*sync.Pool).Get" })
	}
	var pooled []*Expr
	staleIn := func(v *Expr, c *Expr) bool {
		return it.in.mentions(v, func(x *Expr) bool {
			return x.Op == OpInit && x.Args[0].Op == OpFieldAddr && x.Args[0].Args[0] == c
		})
	}
	checkFields := func(s *State, c *Expr, ev *CallEv) {
		for i := 0; i < fields.NumFields(); i++ {
			f := fields.Field(i)
			a := it.fieldAddr(c, f.Name(), pointerTo(f.Type()))
			v := it.load(s, a, f.Type())
			r.ok("established", f.Name()+" at "+p.pos(ev.Pos))
			if staleIn(v, c) {
				if stale[f.Name()] == nil {
					stale[f.Name()] = &bad{s.clone(), ev.Pos, "field " + f.Name() + " still holds " + v.String()}
				}
				continue
			}
			// maps must belong to this request
			if strings.HasPrefix(typeKey(f.Type().Underlying()), "map[") {
				for _, alt := range it.in.alternatives(v) {
					x := strip(alt)
					if x.isNil() || x.Op == OpMake && x.Name == "map" {
						if x.isNil() && f.Name() == "Environ" {
							r.fail("environ-made", f.Name(), ev.Pos, s, "handlers start with a nil environment map")
						}
						continue
					}
					if f.Name() == "Params" && it.in.mentions(x, func(y *Expr) bool { return y.Op == OpRes && strings.Contains(y.Name, "/water") }) {
						// result of a matching function that is cut: covered by its own analysis
						continue
					}
					r.fail("fresh-map", f.Name(), ev.Pos, s, "map %s may be shared with another request: %s", f.Name(), x)
				}
			}
		}
	}
	it.hooks.PanicEdge = func(s *State, ev *CallEv) bool { return p.isHandlerCall(ev) }
	use := func(s *State, e *Expr, pos token.Pos, what string) {
		if s.auto["put"] == "" {
			return
		}
		for _, c := range pooled {
			if e != nil && it.in.contains(e, c) {
				r.fail("use-after-put", what, pos, s, "the context is used after it was returned to the pool")
			}
		}
	}
	it.hooks.Call = func(s *State, ev *CallEv) {
		switch {
		case ev.Name == "(*sync.Pool).Put" && ev.Kind != "defer-stmt":
			putSeen = true
			r.ok("pool-put", p.pos(ev.Pos))
			arg := strip(ev.Args[1])
			if !isCtx(arg) {
				r.fail("put-other", "Put", ev.Pos, s, "the object returned to the pool is not the context taken from it: %s", arg)
				return
			}
			if s.auto["put"] != "" {
				r.fail("double-put", "Put", ev.Pos, s, "the context is returned to the pool twice on one path")
			}
			s.auto["put"] = "1"
			for i := 0; i < fields.NumFields(); i++ {
				f := fields.Field(i)
				v := it.load(s, it.fieldAddr(arg, f.Name(), pointerTo(f.Type())), f.Type())
				if !(v.Op == OpConst && (v.isNil() || v == it.in.zero(f.Type()))) {
					delete(cleanAtPut, f.Name())
				}
			}
		case p.isHandlerCall(ev):
			c := ev.Args[len(ev.Args)-1]
			if s.auto["put"] != "" {
				r.fail("handler-after-put", "handler", ev.Pos, s, "a handler is started after the context was returned to the pool")
			}
			if !handlerSeen[s.autoKey()] || s.auto["ran"] == "" {
				handlerSeen[s.autoKey()] = true
			}
			if s.auto["ran"] == "" {
				if !isCtx(c) {
					// contexts that do not come from the pool must be new
					if c.Op != OpAlloc {
						r.fail("context-origin", "handler", ev.Pos, s, "handlers run on a context of unknown origin: %s", c)
						return
					}
				}
				checkFields(s, c, ev)
				s.auto["ran"] = "1"
			}
		case ev.Kind == "go":
			for _, a := range ev.Args {
				for _, c := range pooled {
					if it.in.contains(a, c) {
						r.fail("async-use", "go", ev.Pos, s, "the context escapes to another goroutine of the dispatcher")
					}
				}
			}
			if ev.Callee != nil {
				for _, c := range pooled {
					if it.in.contains(ev.Callee, c) {
						r.fail("async-use", "go", ev.Pos, s, "the context escapes to another goroutine of the dispatcher")
					}
				}
			}
		default:
			for _, a := range ev.Args {
				use(s, a, ev.Pos, "call")
			}
		}
	}
	it.hooks.After = func(s *State, ev *CallEv, res *Expr) {
		if ev.Name == "(*sync.Pool).Get" {
			delete(s.auto, "put")
		}
	}
	it.hooks.Store = func(s *State, fr *Frame, a, v *Expr, in ssa.Instruction) { use(s, a, instrPos(in), "store") }
	it.hooks.Load = func(s *State, fr *Frame, a *Expr, in ssa.Instruction) {
		if a.Op == OpFieldAddr && isCtx(a.Args[0]) {
			add := true
			for _, c := range pooled {
				if c == a.Args[0] {
					add = false
				}
			}
			if add {
				pooled = append(pooled, a.Args[0])
			}
		}
		use(s, a, instrPos(in), "load")
	}
	it.hooks.Deref = func(s *State, fr *Frame, ptr *Expr, in ssa.Instruction) {
		if isCtx(ptr) {
			for _, c := range pooled {
				if c == ptr {
					return
				}
			}
			pooled = append(pooled, ptr)
		}
	}
	exits := it.Run(p.role.serve, st, it.Params(p.role.serve), nil)
	r.absorb(it, "ServeHTTP")
	if len(exits) == 0 {
		r.missing("paths through ServeHTTP")
	}
	// the constructor of the pool yields a fresh context
	newClean := c01PoolNew(p, r)
	for f, b := range stale {
		if putSeen && newClean && cleanAtPut[f] {
			continue
		}
		r.fail("stale", f, b.pos, b.s, "a recycled context reaches the handlers with state of an earlier request: %s", b.msg)
	}
}

// c01PoolNew checks that the pool's New functions return a new zero context.
func c01PoolNew(p *Program, r *Report) bool {
	clean := true
	for _, f := range p.Funcs() {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := s.Addr.(*ssa.FieldAddr)
				if !ok || typeKey(derefT(fa.X.Type())) != "sync.Pool" {
					continue
				}
				it := newInterp(p)
				st := it.initial()
				v := s.Val
				for {
					if c, ok := v.(*ssa.ChangeType); ok {
						v = c.X
						continue
					}
					break
				}
				var fn *ssa.Function
				switch x := v.(type) {
				case *ssa.Function:
					fn = x
				case *ssa.MakeClosure:
					fn = x.Fn.(*ssa.Function)
				}
				if fn == nil {
					r.fail("pool-new", "New", s.Pos(), nil, "the pool constructor cannot be resolved")
					return false
				}
				var binds []*Expr
				for _, fv := range fn.FreeVars {
					binds = append(binds, it.param("free:"+fv.Name(), fv.Type()))
				}
				r.ok("pool-new", fn.Name())
				for _, e := range it.Run(fn, st, it.Params(fn), binds) {
					if e.panic || len(e.vals) == 0 {
						continue
					}
					x := strip(e.vals[0])
					if x.Op != OpAlloc || !p.isCtxPtr(x) {
						r.fail("pool-new", "New", e.pos, e.st, "the pool constructor must return a new context, it returns %s", x)
						clean = false
						continue
					}
					for i := 0; i < p.role.ctxFields.NumFields(); i++ {
						fl := p.role.ctxFields.Field(i)
						v := it.load(e.st, it.fieldAddr(x, fl.Name(), pointerTo(fl.Type())), fl.Type())
						if v != it.in.zero(fl.Type()) && !v.isNil() {
							clean = false
						}
					}
				}
				r.absorb(it, "pool constructor")
			}
		}
	}
	return clean
}
