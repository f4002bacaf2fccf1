package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C36", "Dispatch up to the first handler (ServeHTTP), Match and the recursive matcher are interpreted with symbolic request, engine, tree and text. Every operation that can panic is an obligation that must be proved from the facts of its path: an index is known to be within its list, slice bounds are known to be ordered and inside, a dereferenced pointer and an updated map are known to exist, "+
		"a single-result type assertion is known to succeed, no explicit panic is reached, each recursive search gets a strictly shorter text, and a regexp is only used on a segment known to be of regexp kind. "+
		"What is assumed of stored state is checked where it is stored: the engine's pointers are set whenever an engine is built, the context pool holds contexts only.",
		map[string]int{"index": 3, "deref": 10, "assert": 1, "exit": 6, "engine": 1, "pool": 2}, c36)
}

// guards turns every operation that may panic into an obligation.
type guards struct {
	p    *Program
	r    *Report
	it   *Interp
	name string
	// off reports that obligations no longer count on this path
	off func(s *State) bool
	// trusted pointers, maps and interfaces
	trust func(s *State, e *Expr) bool
}

func (g *guards) at(fr *Frame) string {
	if fr == nil {
		return g.name
	}
	return g.p.fnName(fr.fn)
}

func (g *guards) skip(s *State) bool { return g.off != nil && g.off(s) }

func (g *guards) le(s *State, a, b *Expr) bool { // a <= b
	return g.it.truth(s, g.it.in.lss(b, a)) == -1
}

// counts decides whether a loop counter keeps a bound: what it starts with
// does, and every step moves away from it.
func (g *guards) counts(s *State, x *Expr, dir int64, start func(*Expr) bool) bool {
	b, k := split(x)
	cs := g.it.in.cands[b.ID]
	if b.Op != OpSym || k*dir < 0 || len(cs) == 0 {
		return false
	}
	for id := range cs {
		c := g.it.in.byID[id-1]
		if y, l := split(c); y == b {
			if l*dir < 0 {
				return false
			}
			continue
		}
		if !start(c) {
			return false
		}
	}
	return true
}

func (g *guards) below(s *State, x, n *Expr) bool { // x < n
	lt := func(x *Expr) bool { return g.it.truth(s, g.it.in.lss(x, n)) == 1 }
	return lt(x) || g.counts(s, x, -1, lt)
}

func (g *guards) natural(s *State, x *Expr) bool { // 0 <= x
	nat := func(x *Expr) bool { return g.it.truth(s, g.it.in.lss(x, g.it.in.intc(0))) == -1 }
	return nat(x) || g.counts(s, x, 1, nat)
}

// found: base is cut in front of what was found behind lo.
func (g *guards) found(s *State, base, lo, hi *Expr) bool {
	h := strip(hi)
	if h.Op != OpBin || h.Name != "+" {
		return false
	}
	for i, j := range h.Args {
		j, l := strip(j), h.Args[1-i]
		if (j.Op != OpCall && j.Op != OpRes) || !strings.HasPrefix(j.Name, "strings.Index") || len(j.Args) == 0 {
			continue
		}
		rest := strip(j.Args[0])
		if rest.Op == OpSlice && rest.Args[0] == base && rest.Args[1] == l && rest.Args[2] == nil && g.natural(s, j) && g.natural(s, lo) && g.le(s, lo, l) {
			return true
		}
	}
	return false
}

func (g *guards) exists(s *State, e *Expr) bool {
	e = stripChange(e)
	switch e.Op {
	case OpAlloc, OpFieldAddr, OpIndexAddr, OpMake, OpClosure, OpFunc, OpGlobal, OpIface, OpList:
		return true
	}
	if g.it.nilness(s, e) == -1 {
		return true
	}
	return g.trust != nil && g.trust(s, e)
}

func (g *guards) install() {
	it, in, r := g.it, g.it.in, g.r
	it.hooks.Index = func(s *State, fr *Frame, base, idx *Expr, instr ssa.Instruction) {
		if g.skip(s) {
			return
		}
		pos := instrPos(instr)
		r.ok("index", g.p.pos(pos)+g.name)
		var n *Expr
		t := base.Typ
		if p := derefT(t); p != nil {
			t = p
		}
		if a, ok := t.Underlying().(*types.Array); ok {
			n = in.intc(a.Len())
		} else {
			n = in.lenOf(base)
		}
		if !g.below(s, idx, n) || !g.natural(s, idx) {
			r.fail("index", g.at(fr)+" "+shortIdx(base), pos, s, "%s is indexed with %s, which is not known to be within its length", base, idx)
		}
	}
	it.hooks.SliceOp = func(s *State, fr *Frame, base, lo, hi *Expr, instr ssa.Instruction) {
		if g.skip(s) {
			return
		}
		pos := instrPos(instr)
		r.ok("slice", g.p.pos(pos)+g.name)
		t := base.Typ
		if p := derefT(t); p != nil {
			t = p
		}
		var n *Expr
		if a, ok := t.Underlying().(*types.Array); ok {
			n = in.intc(a.Len())
		} else {
			n = in.lenOf(base)
		}
		if lo == nil {
			lo = in.intc(0)
		}
		if hi == nil {
			hi = n
		}
		if g.found(s, base, lo, hi) {
			return
		}
		if !g.natural(s, lo) || !g.le(s, lo, hi) || !g.le(s, hi, n) {
			r.fail("slice", g.at(fr), pos, s, "%s is cut at %s:%s, which is not known to be within its length", base, lo, hi)
		}
	}
	it.hooks.Deref = func(s *State, fr *Frame, ptr *Expr, instr ssa.Instruction) {
		if g.skip(s) {
			return
		}
		switch ptr.Op {
		case OpAlloc, OpFieldAddr, OpIndexAddr, OpGlobal:
			return
		}
		pos := instrPos(instr)
		r.ok("deref", g.p.pos(pos)+g.name)
		if !g.exists(s, ptr) {
			r.fail("deref", g.at(fr)+" "+shortIdx(ptr), pos, s, "%s is dereferenced although it may be nil", ptr)
		}
	}
	it.hooks.Assert = func(s *State, fr *Frame, x *Expr, t types.Type, commaOk bool, instr ssa.Instruction) {
		if commaOk || g.skip(s) {
			return
		}
		pos := instrPos(instr)
		r.ok("assert", g.p.pos(pos)+g.name)
		_, ok := it.assert(x, t)
		if it.truth(s, ok) == 1 || g.trust != nil && g.trust(s, in.mk(Expr{Op: OpAssertOk, Args: []*Expr{x}, Name: typeKey(t), Typ: t})) {
			return
		}
		if types.IsInterface(t) && x.Typ != nil && types.Implements(x.Typ, t.Underlying().(*types.Interface)) && g.exists(s, x) {
			return
		}
		tag := ""
		if g.p.cfg.Tags != "" {
			tag = " [" + g.p.cfg.Tags + "]"
		}
		r.fail("assert", g.name+" "+shortType(x.Typ)+".("+shortType(t)+")"+tag, pos, s, "%s is asserted to be a %s, which is not known", x, shortType(t))
	}
	it.hooks.MapUpdate = func(s *State, fr *Frame, m, k, v *Expr, instr ssa.Instruction) {
		if v == nil || g.skip(s) {
			return
		}
		pos := instrPos(instr)
		r.ok("deref", g.p.pos(pos)+g.name)
		if !g.exists(s, m) {
			r.fail("deref", g.at(fr)+" map", pos, s, "the map %s is updated although it may be nil", m)
		}
	}
}

func shortIdx(e *Expr) string {
	e = stripChange(e)
	switch e.Op {
	case OpInit:
		return shortIdx(e.Args[0])
	case OpFieldAddr, OpParam:
		return e.Name
	case OpIndexAddr:
		return shortIdx(e.Args[0]) + "[]"
	case OpCall, OpRes:
		return shortName(e.Name)
	}
	return ""
}

// call checks what a call needs.
func (g *guards) call(s *State, ev *CallEv) {
	if g.skip(s) {
		return
	}
	if ev.Invoke && len(ev.Args) > 0 && !g.exists(s, ev.Args[0]) {
		g.r.fail("deref", g.at(ev.Fr)+" "+ev.Name, ev.Pos, s, "%s is called on %s, which may be nil", ev.Name, ev.Args[0])
	}
	if ev.Fn == nil && !ev.Invoke && ev.Callee != nil && ev.Callee.Op != OpFunc && ev.Callee.Op != OpClosure && ev.Name == "" && !g.exists(s, ev.Callee) {
		g.r.fail("deref", g.at(ev.Fr)+" call", ev.Pos, s, "the function %s is called although it may be nil", ev.Callee)
	}
	if ev.Fn != nil || ev.Name == "" {
		return
	}
	if strings.HasPrefix(ev.Name, "(*") && len(ev.Args) > 0 && derefT(ev.Args[0].Typ) != nil {
		g.r.ok("deref", g.p.pos(ev.Pos)+g.name)
		if !g.exists(s, ev.Args[0]) {
			g.r.fail("deref", g.at(ev.Fr)+" "+shortIdx(ev.Args[0]), ev.Pos, s, "%s is called on %s, which may be nil", ev.Name, ev.Args[0])
		}
	}
	for _, bad := range []string{"regexp.MustCompile", "strings.Repeat", "reflect.", "(reflect.", "os.Exit", "runtime.Goexit", "log.Fatal", "log.Panic", "github.com/meilihao/logx.Fatal", "github.com/meilihao/logx.Panic", "bytes.Repeat", "html/template.Must"} {
		if strings.HasPrefix(ev.Name, bad) {
			g.r.fail("call", g.at(ev.Fr)+" "+ev.Name, ev.Pos, s, "%s may panic or end the process", ev.Name)
		}
	}
}

func c36(p *Program, r *Report) {
	engineFields := map[string]bool{}
	c36Serve(p, r, engineFields)
	c36Match(p, r)
	c36Engine(p, r, engineFields)
	c36Pool(p, r)
}

// engineField recognises a pointer-like field of the engine.
func engineField(p *Program, e *Expr, eng *Expr) (string, bool) {
	e = stripChange(e)
	if e.Op == OpInit && e.Args[0].Op == OpFieldAddr && e.Args[0].Args[0] == eng {
		return e.Args[0].Name, true
	}
	return "", false
}

func c36Serve(p *Program, r *Report, fields map[string]bool) {
	it := newInterp(p)
	st := it.initial()
	args := it.Params(p.role.serve)
	for _, a := range args {
		st.facts[it.in.eq(a, it.in.zero(a.Typ))] = false
	}
	isPool := func(e *Expr) bool {
		e = strip(e)
		return e.Op == OpRes && e.Name == "(*sync.Pool).Get"
	}
	g := &guards{p: p, r: r, it: it, name: p.fnName(p.role.serve)}
	g.off = func(s *State) bool { return s.auto["started"] != "" }
	g.trust = func(s *State, e *Expr) bool {
		if e.Op == OpAssertOk {
			return isPool(e.Args[0]) && types.Identical(derefT(e.Typ), p.role.ctx)
		}
		if e.Op == OpAssert && isPool(e.Args[0]) {
			return true
		}
		if f, ok := engineField(p, e, args[0]); ok {
			fields[f] = true
			return true
		}
		if e.Op == OpInit && e.Args[0].Op == OpFieldAddr {
			b := e.Args[0].Args[0]
			// the URL and header of a request net/http hands over
			if b == args[2] && (e.Args[0].Name == "URL" || e.Args[0].Name == "Header") {
				return true
			}
		}
		if strings.HasPrefix(e.Name, "(net/http.ResponseWriter).Header") {
			return true
		}
		// the handlers of a chain are checked when they are registered
		if e.Op == OpInit && e.Args[0].Op == OpIndexAddr && e.Typ != nil && types.Identical(e.Typ, p.role.handler) {
			return true
		}
		return false
	}
	g.install()
	it.hooks.Opaque = func(f *ssa.Function, ev *CallEv) bool { return f == p.role.match }
	it.hooks.Call = func(s *State, ev *CallEv) {
		g.call(s, ev)
		if ev.Kind != "defer-stmt" && p.isHandlerCall(ev) {
			s.auto["started"] = "1"
		}
	}
	for _, e := range it.startWith(p.role.serve, st, args) {
		if e.panic {
			if !g.skip(e.st) {
				r.fail("exit", g.name, e.pos, e.st, "dispatching panics")
			}
			continue
		}
		r.ok("exit", p.pos(e.pos)+itoa(len(e.st.facts)))
	}
	r.absorb(it, g.name)
}

func c36Match(p *Program, r *Report) {
	it0 := newInterp(p)
	it0.startWith(p.role.match, it0.initial(), it0.Params(p.role.match))
	roots := []*ssa.Function{p.role.match}
	isG := map[*ssa.Function]bool{}
	for g := range it0.cut {
		isG[g] = true
		roots = append(roots, g)
	}
	sort.Slice(roots[1:], func(i, j int) bool { return roots[1+i].String() < roots[1+j].String() })
	for i, f := range roots {
		it := newInterp(p)
		m := &matcher{p: p, r: r, prop: "C36", it: it, g: f}
		if x := m.nodeShape(); x != "" {
			r.missing(x)
			return
		}
		st := it.initial()
		args := it.Params(f)
		for k, a := range args {
			switch a.Typ.Underlying().(type) {
			case *types.Pointer, *types.Map:
				if i > 0 { // checked at every call
					st.facts[it.in.eq(a, it.in.zero(a.Typ))] = false
				}
			case *types.Basic:
				if isStringT(a.Typ) {
					m.u = args[k]
				}
			}
			if types.Identical(derefT(a.Typ), p.role.node) {
				m.n = args[k]
			}
		}
		g := &guards{p: p, r: r, it: it, name: p.fnName(f)}
		g.trust = func(s *State, e *Expr) bool {
			if e.Op != OpInit {
				return false
			}
			a := e.Args[0]
			// elements of a node list are nodes
			if a.Op == OpIndexAddr && isNodeList(p, a.Args[0].Typ) {
				return true
			}
			// regexp segments have an expression
			if a.Op == OpFieldAddr && a.Name == m.reg && types.Identical(derefT(a.Args[0].Typ), p.role.node) {
				return onlyKind(m.kinds(s, a.Args[0]), kRegexp)
			}
			return false
		}
		g.install()
		it.hooks.Call = func(s *State, ev *CallEv) {
			g.call(s, ev)
			if !isG[ev.Fn] {
				return
			}
			for _, a := range ev.Args {
				switch a.Typ.Underlying().(type) {
				case *types.Pointer, *types.Map:
					r.ok("deref", p.pos(ev.Pos)+g.name)
					if !g.exists(s, a) {
						r.fail("deref", g.at(ev.Fr)+" "+shortIdx(a), ev.Pos, s, "the search goes on with %s, which may be nil", a)
					}
				case *types.Basic:
					if isStringT(a.Typ) && i > 0 && ev.Cut && !m.isRest(a) && !shorter(it, s, a, m.u) {
						r.fail("shrink", g.name, ev.Pos, s, "the search goes on with %s, which is not known to be shorter than the text searched: it may never end", a)
					}
				}
			}
		}
		if i == 0 {
			it.hooks.Opaque = func(f *ssa.Function, ev *CallEv) bool { return isG[f] }
		}
		it.hooks.Override = func(s *State, ev *CallEv) (*Expr, bool) {
			if !isG[ev.Fn] {
				return nil, false
			}
			return it.fresh(s, ev.Fr, ev.Instr, "res", Expr{Op: OpRes, Name: "match", Typ: pointerTo(p.role.node)}), true
		}
		for _, e := range it.startWith(f, st, args) {
			if e.panic {
				r.fail("exit", g.name, e.pos, e.st, "matching panics")
				continue
			}
			r.ok("exit", p.pos(e.pos)+g.name)
		}
		r.absorb(it, g.name)
	}
}

func shorter(it *Interp, s *State, a, u *Expr) bool {
	a = strip(a)
	for k := 0; k < 4; k++ {
		if a.Op == OpSlice {
			if u == a.Args[0] && a.Args[1] != nil && it.truth(s, it.in.lss(it.in.intc(0), a.Args[1])) == 1 {
				return true
			}
			a = strip(a.Args[0])
			continue
		}
		if a.Op == OpCall && strings.HasPrefix(a.Name, "strings.Trim") {
			a = strip(a.Args[0])
			continue
		}
		return false
	}
	return false
}

// c36Engine: the fields the dispatcher relies on are set in every engine built.
func c36Engine(p *Program, r *Report, fields map[string]bool) {
	var roots []*ssa.Function
	for _, f := range p.Funcs() {
		rs := f.Signature.Results()
		if rs.Len() < 1 || !types.Identical(derefT(rs.At(0).Type()), p.role.engine) || f.Object() == nil || !f.Object().Exported() {
			continue
		}
		roots = append(roots, f)
	}
	if len(roots) == 0 {
		r.missing("exported function that builds an engine")
	}
	for _, f := range roots {
		it := newInterp(p)
		st := it.initial()
		args := it.Params(f)
		for _, a := range args {
			if derefT(a.Typ) != nil {
				st.facts[it.in.eq(a, it.in.zero(a.Typ))] = false
			}
		}
		it.hooks.Opaque = func(f *ssa.Function, ev *CallEv) bool {
			return f == p.role.add || !reachesEngine(p, f)
		}
		for _, e := range it.startWith(f, st, args) {
			if e.panic {
				continue
			}
			w := strip(e.vals[0])
			if w.isNil() {
				continue
			}
			for _, fl := range sortedKeys(fields) {
				t := fieldPtrType(p.role.engine, fl)
				v := it.load(e.st, it.fieldAddr(w, fl, t), derefT(t))
				r.ok("engine", p.fnName(f)+" "+fl)
				v = stripChange(v)
				if v.Op != OpAlloc && v.Op != OpMake && it.nilness(e.st, v) != -1 && !(v.Op == OpRes && v.Name != "") {
					r.fail("engine", p.fnName(f)+" "+fl, e.pos, e.st, "an engine is built with %s = %s, which the dispatcher relies on not to be nil", fl, v)
				}
			}
		}
		r.absorb(it, p.fnName(f))
	}
}

// reachesEngine: f or something it calls may set fields of an engine.
func reachesEngine(p *Program, f *ssa.Function) bool {
	return p.fnReaches(f, map[*ssa.Function]bool{}, func(g *ssa.Function) bool {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if a, ok := in.(*ssa.Alloc); ok && types.Identical(derefT(a.Type()), p.role.engine) {
					return true
				}
				if a, ok := in.(*ssa.FieldAddr); ok && types.Identical(derefT(a.X.Type()), p.role.engine) {
					return true
				}
			}
		}
		return false
	})
}

// c36Pool: only contexts are put into a context pool.
func c36Pool(p *Program, r *Report) {
	isCtx := func(v ssa.Value) bool {
		m, ok := v.(*ssa.MakeInterface)
		return ok && types.Identical(derefT(m.X.Type()), p.role.ctx) && !isNilConst(m.X)
	}
	for _, f := range p.Funcs() {
		if f.Pkg != p.water {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Store:
					a, ok := x.Addr.(*ssa.FieldAddr)
					if !ok || typeKey(derefT(a.X.Type())) != "sync.Pool" {
						continue
					}
					v := x.Val
					if c, ok := v.(*ssa.MakeClosure); ok {
						v = c.Fn
					}
					g, ok := v.(*ssa.Function)
					if !ok {
						r.fail("pool", p.fnName(f), x.Pos(), nil, "what the context pool makes is not known")
						continue
					}
					for _, gb := range g.Blocks {
						for _, gi := range gb.Instrs {
							if ret, ok := gi.(*ssa.Return); ok {
								r.ok("pool", p.fnName(f)+" New")
								if !isCtx(ret.Results[0]) {
									r.fail("pool", p.fnName(g), ret.Pos(), nil, "the context pool makes something that is not known to be a context")
								}
							}
						}
					}
				case ssa.CallInstruction:
					c := x.Common()
					if g := c.StaticCallee(); g != nil && fullName(g) == "(*sync.Pool).Put" {
						r.ok("pool", p.fnName(f)+" Put")
						if !isCtx(c.Args[1]) {
							r.fail("pool", p.fnName(f)+" Put", x.Pos(), nil, "something that is not known to be a context is put into the context pool")
						}
					}
				}
			}
		}
	}
}

func isNilConst(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	return ok && c.IsNil()
}

var _ = token.NoPos

// fnReaches follows static calls, function values and closures of the module.
func (p *Program) fnReaches(f *ssa.Function, seen map[*ssa.Function]bool, pred func(*ssa.Function) bool) bool {
	if f == nil || seen[f] || !p.inModule(f) {
		return false
	}
	seen[f] = true
	if pred(f) {
		return true
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			for _, op := range in.Operands(nil) {
				if g, ok := (*op).(*ssa.Function); ok && p.fnReaches(g, seen, pred) {
					return true
				}
			}
		}
	}
	for _, a := range f.AnonFuncs {
		if p.fnReaches(a, seen, pred) {
			return true
		}
	}
	return false
}
