package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C08", "Each verb method of Router is interpreted: every normal return has appended exactly one route entry to the receiver, holding the HTTP method of that name, the caller's pattern and handlers, and the receiver as parent; ANY, interpreted with the default and with every one-element exclusion list, appends one for each other method. "+
		"The tree consulted by the dispatcher for a request of that method and the tree the builder adds a route of that method to (both interpreted with that constant method) are the same constant slot, distinct per method; the printing methods read that slot; package tables listing methods list them all, with that slot.",
		map[string]int{"verb": 7, "any": 8, "dispatch-slot": 7, "build-slot": 7, "table": 1}, c08)
	register("C13", "The dispatcher is interpreted per method: a node taken from a fast table comes from this method's slot, under the request's path, with the option known to be on, and carries no parameters; otherwise the node and the parameters are those of one match of the request's path in this method's tree. "+
		"The builder is interpreted per method: a table entry is written only under the very pattern given to the tree, with the node the tree returned, in the same slot, with the node and all its ancestors known static and no empty inner segment in the pattern.",
		map[string]int{"table-write": 7, "table-read": 7, "match-read": 7, "static-check": 1}, c13)
}

// routerShape names the fields of Router by what registering a route stores.
type routerShape struct {
	method, pattern, parent, handlers, sub string
}

func (it *Interp) str(v string) *Expr {
	return it.in.constOf(constant.MakeString(v), types.Typ[types.String])
}

// registered lists the entries appended to the list e on top of old.
func (it *Interp) registered(e, old *Expr) ([]*Expr, bool) {
	var out []*Expr
	for e != old {
		if e.Op == OpChange {
			e = e.Args[0]
			continue
		}
		if e.Op != OpAppend || e.Args[1].Op != OpList {
			return nil, false
		}
		out = append(append([]*Expr{}, e.Args[1].Args...), out...)
		e = e.Args[0]
	}
	return out, true
}

func (p *Program) routerFields() []*types.Var {
	st := p.role.router.Underlying().(*types.Struct)
	var out []*types.Var
	for i := 0; i < st.NumFields(); i++ {
		out = append(out, st.Field(i))
	}
	return out
}

type regRun struct {
	it   *Interp
	args []*Expr // receiver, pattern, handlers
	old  map[string]*Expr
}

func (p *Program) runReg(fn *ssa.Function, setup func(rr *regRun, st *State)) (*regRun, []exit) {
	it := newInterp(p)
	it.bulkConv = func(*ssa.Function) bool { return false }
	st := it.initial()
	args := it.Params(fn)
	st.facts[it.in.eq(args[0], it.in.zero(args[0].Typ))] = false
	rr := &regRun{it: it, args: args, old: map[string]*Expr{}}
	if setup != nil {
		setup(rr, st)
	}
	for _, f := range p.routerFields() {
		rr.old[f.Name()] = it.load(st, it.fieldAddr(args[0], f.Name(), pointerTo(f.Type())), f.Type())
	}
	return rr, it.normal(fn, st, args)
}

func (rr *regRun) field(p *Program, s *State, obj *Expr, name string) *Expr {
	for _, f := range p.routerFields() {
		if f.Name() == name {
			return rr.it.load(s, rr.it.fieldAddr(obj, name, pointerTo(f.Type())), f.Type())
		}
	}
	return nil
}

// shapeOf derives the shape from what GET does.
func (p *Program) shapeOf() *routerShape {
	fn := p.method(p.water, "Router", "GET")
	if fn == nil || len(fn.Params) != 3 {
		return nil
	}
	rr, exits := p.runReg(fn, nil)
	for _, e := range exits {
		sh := &routerShape{}
		var obj *Expr
		for _, f := range p.routerFields() {
			if x, ok := rr.it.registered(rr.field(p, e.st, rr.args[0], f.Name()), rr.old[f.Name()]); ok && len(x) == 1 && types.Identical(derefT(x[0].Typ), p.role.router) {
				sh.sub, obj = f.Name(), x[0]
			}
		}
		if obj == nil {
			continue
		}
		for _, f := range p.routerFields() {
			v := rr.field(p, e.st, obj, f.Name())
			switch {
			case v == rr.args[0]:
				sh.parent = f.Name()
			case v == rr.args[1]:
				sh.pattern = f.Name()
			case rr.sameList(v, rr.args[2]):
				sh.handlers = f.Name()
			case isStringT(f.Type()):
				if c, ok := v.constStr(); ok && c != "" {
					sh.method = f.Name()
				}
			}
		}
		if sh.method != "" && sh.pattern != "" && sh.parent != "" && sh.handlers != "" {
			return sh
		}
	}
	return nil
}

// sameList reports whether v is the list want or a copy of it.
func (rr *regRun) sameList(v, want *Expr) bool {
	v = stripChange(v)
	if v == want {
		return true
	}
	return v.Op == OpAppend && v.Args[1] == want && func() bool { n, ok := rr.it.in.lenOf(v.Args[0]).constInt(); return ok && n == 0 }()
}

// routeEntry is the named struct a node points to for its route.
func (p *Program) routeType() *types.Named {
	st, ok := p.role.node.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < st.NumFields(); i++ {
		n, ok := derefT(st.Field(i).Type()).(*types.Named)
		if !ok || types.Identical(n, p.role.node) || n.Obj().Pkg() != p.water.Pkg {
			continue
		}
		rs, ok := n.Underlying().(*types.Struct)
		if !ok {
			continue
		}
		for j := 0; j < rs.NumFields(); j++ {
			if sl, ok := rs.Field(j).Type().Underlying().(*types.Slice); ok && types.Identical(sl.Elem(), p.role.handler) {
				return n
			}
		}
	}
	return nil
}

// routeMethod is the field of a route that takes the router's method field.
func (p *Program) routeMethod(rt *types.Named, sh *routerShape) string {
	name := ""
	for _, f := range p.Funcs() {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				a, ok := s.Addr.(*ssa.FieldAddr)
				if !ok || !types.Identical(derefT(a.X.Type()), rt) {
					continue
				}
				if u, ok := s.Val.(*ssa.UnOp); ok {
					if fa, ok := u.X.(*ssa.FieldAddr); ok && types.Identical(derefT(fa.X.Type()), p.role.router) {
						if p.role.router.Underlying().(*types.Struct).Field(fa.Field).Name() == sh.method {
							name = rt.Underlying().(*types.Struct).Field(a.Field).Name()
						}
					}
				}
			}
		}
	}
	return name
}

// slotOf recognises the content of a constant slot of an array field of the engine.
func slotOf(e, engine *Expr) (field string, k int64, ok bool) {
	e = strip(e)
	if e == nil || e.Op != OpInit {
		return
	}
	return slotAddr(e.Args[0], engine)
}

func slotAddr(a, engine *Expr) (field string, k int64, ok bool) {
	if a.Op != OpIndexAddr || a.Args[0].Op != OpFieldAddr || a.Args[0].Args[0] != engine {
		if a.Op == OpIndexAddr && a.Args[0].Op == OpInit && a.Args[0].Args[0].Op == OpFieldAddr && a.Args[0].Args[0].Args[0] == engine {
			k, ok = a.Args[1].constInt()
			return a.Args[0].Args[0].Name, k, ok
		}
		return
	}
	k, ok = a.Args[1].constInt()
	return a.Args[0].Name, k, ok
}

// builders are the functions that add routes to the trees of an engine.
func (p *Program) builders() []*ssa.Function {
	callers := map[*ssa.Function][]*ssa.Function{}
	for _, f := range p.Funcs() {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					if g := c.Common().StaticCallee(); g != nil {
						callers[g] = append(callers[g], f)
					}
				}
			}
		}
	}
	seen := map[*ssa.Function]bool{}
	var out []*ssa.Function
	var up func(f *ssa.Function)
	up = func(f *ssa.Function) {
		if seen[f] {
			return
		}
		seen[f] = true
		stop := true
		for _, c := range callers[f] {
			if c.Object() == nil || !c.Object().Exported() {
				if !isMethodOf(c, p.role.node) {
					stop = false
					up(c)
				}
			}
		}
		if stop {
			out = append(out, f)
		}
	}
	for _, c := range callers[p.role.add] {
		if !isMethodOf(c, p.role.node) {
			up(c)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	return out
}

// buildRun interprets the builder with every route having the given method.
type buildRun struct {
	p      *Program
	r      *Report
	it     *Interp
	verb   string
	engine *Expr
	static *ssa.Function // helper that decides whether a node is static
	onAdd  func(s *State, ev *CallEv, res, route *Expr)
	onMap  func(s *State, m, k, v *Expr, pos token.Pos)
	onEnd  func(s *State, pos token.Pos)
}

// nodePred reports whether f is a predicate on one tree node.
func (p *Program) nodePred(f *ssa.Function) bool {
	sig := f.Signature
	if sig.Results().Len() != 1 || !types.Identical(sig.Results().At(0).Type().Underlying(), types.Typ[types.Bool]) {
		return false
	}
	if len(f.Params) != 1 {
		return false
	}
	return types.Identical(derefT(f.Params[0].Type()), p.role.node)
}

func (b *buildRun) run(fn *ssa.Function, rt *types.Named, methodField string) {
	p, it := b.p, b.it
	st := it.initial()
	args := it.Params(fn)
	for i, a := range args {
		if types.Identical(derefT(a.Typ), p.role.engine) {
			b.engine = args[i]
		}
		if derefT(a.Typ) != nil {
			st.facts[it.in.eq(a, it.in.zero(a.Typ))] = false
		}
	}
	it.hooks.Opaque = func(f *ssa.Function, ev *CallEv) bool {
		if f == p.role.add || p.nodePred(f) {
			return true
		}
		rs := f.Signature.Results()
		return rs.Len() == 1 && types.Identical(derefT(rs.At(0).Type()), p.role.node) && !types.Identical(f.Signature.Results().At(0).Type(), p.role.node) && len(f.Params) < 3
	}
	it.hooks.Load = func(s *State, fr *Frame, a *Expr, in ssa.Instruction) {
		if a.Op == OpFieldAddr && a.Name == methodField && types.Identical(derefT(a.Args[0].Typ), rt) {
			if _, ok := s.mem[a]; !ok {
				s.mem[a] = it.str(b.verb)
			}
		}
	}
	it.hooks.After = func(s *State, ev *CallEv, res *Expr) {
		if ev.Fn == p.role.add {
			s.push("added", res)
			if b.onAdd != nil {
				var route *Expr
				h := stripChange(ev.Args[2])
				if h.Op == OpInit && h.Args[0].Op == OpFieldAddr && types.Identical(derefT(h.Args[0].Args[0].Typ), rt) {
					route = h.Args[0].Args[0]
				}
				b.onAdd(s, ev, res, route)
			}
		}
	}
	it.hooks.MapUpdate = func(s *State, fr *Frame, m, k, v *Expr, in ssa.Instruction) {
		if b.onMap != nil {
			b.onMap(s, m, k, v, instrPos(in))
		}
	}
	it.hooks.Arrive = func(s *State, fr *Frame, blk *ssa.BasicBlock, back bool) {
		if back && b.onEnd != nil {
			b.onEnd(s, instrPos(blk.Instrs[0]))
		}
	}
	for _, e := range it.startWith(fn, st, args) {
		if b.onEnd != nil && !e.panic {
			b.onEnd(e.st, e.pos)
		}
	}
	b.r.absorb(it, p.fnName(fn))
}

// holder finds the slot of the engine that holds v.
func (b *buildRun) holder(s *State, v *Expr) (string, int64, bool) {
	if f, k, ok := slotOf(v, b.engine); ok {
		return f, k, true
	}
	for c, x := range s.mem {
		if x == v {
			if f, k, ok := slotAddr(c, b.engine); ok {
				return f, k, true
			}
		}
	}
	return "", 0, false
}

type slot struct {
	field string
	k     int64
}

// dispatchSlots finds, per method, the tree the dispatcher consults.
func dispatchSlots(p *Program, r *Report) map[string]slot {
	out := map[string]slot{}
	for _, v := range verbs {
		d := &dispatch{p: p, r: r, it: newInterp(p), sc: scenario{1, 1, false, v}}
		d.onMatch = func(s *State, ev *CallEv) {
			f, k, ok := slotOf(ev.Args[0], d.args[0])
			if !ok {
				r.fail("dispatch-slot", v, ev.Pos, s, "the tree consulted for a %s request is %s, not a fixed slot of the engine", v, ev.Args[0])
				return
			}
			r.ok("dispatch-slot", v)
			if o, ok := out[v]; ok && o != (slot{f, k}) {
				r.fail("dispatch-slot", v, ev.Pos, s, "%s requests are looked up in slot %d and in slot %d", v, o.k, k)
			}
			out[v] = slot{f, k}
		}
		d.run()
		r.absorb(d.it, "ServeHTTP")
	}
	return out
}

// verbEntries checks that every registration method appends exactly the entry
// it was called for; it returns the check of one entry.
func verbEntries(p *Program, r *Report, sh *routerShape) func(rr *regRun, e *exit, obj *Expr, what string) string {
	entry := func(rr *regRun, e *exit, obj *Expr, what string) string {
		if obj.Typ == nil || !types.Identical(derefT(obj.Typ), p.role.router) || obj.Op != OpAlloc {
			r.fail("verb", what, e.pos, e.st, "%s appends %s instead of a new entry", what, obj)
			return ""
		}
		m, _ := rr.field(p, e.st, obj, sh.method).constStr()
		if x := rr.field(p, e.st, obj, sh.pattern); x != rr.args[1] {
			r.fail("verb", what, e.pos, e.st, "%s registers pattern %s instead of the caller's", what, x)
		}
		if x := rr.field(p, e.st, obj, sh.handlers); !rr.sameList(x, rr.args[2]) {
			r.fail("verb", what, e.pos, e.st, "%s registers handlers %s instead of the caller's", what, x)
		}
		if x := rr.field(p, e.st, obj, sh.parent); x != rr.args[0] {
			r.fail("verb", what, e.pos, e.st, "%s registers the entry under %s instead of the receiver", what, x)
		}
		return m
	}
	others := func(rr *regRun, e *exit, what string) {
		for _, f := range p.routerFields() {
			if f.Name() != sh.sub && rr.field(p, e.st, rr.args[0], f.Name()) != rr.old[f.Name()] {
				r.fail("verb", what+"-alters", e.pos, e.st, "%s changes the %s of its receiver", what, f.Name())
			}
		}
	}
	for _, v := range verbs {
		fn := p.method(p.water, "Router", v)
		if fn == nil {
			r.missing("Router." + v)
			continue
		}
		rr, exits := p.runReg(fn, nil)
		for i := range exits {
			e := &exits[i]
			r.ok("verb", v)
			l, ok := rr.it.registered(rr.field(p, e.st, rr.args[0], sh.sub), rr.old[sh.sub])
			if !ok || len(l) != 1 {
				r.fail("verb", v, e.pos, e.st, "%s does not append exactly one entry to the receiver's list", v)
				continue
			}
			if m := entry(rr, e, l[0], v); m != v {
				r.fail("verb", v, e.pos, e.st, "%s registers a route for method %q", v, m)
			}
			others(rr, e, v)
		}
		r.absorb(rr.it, v)
	}
	return entry
}

func c08(p *Program, r *Report) {
	sh := p.shapeOf()
	if sh == nil {
		r.fail("verb", "GET", token.NoPos, nil, "Router.GET does not register one entry with method, pattern, handlers and parent on its receiver")
		return
	}
	entry := verbEntries(p, r, sh)
	c08Any(p, r, sh, entry)

	slots := dispatchSlots(p, r)
	used := map[slot]string{}
	for _, v := range verbs {
		s, ok := slots[v]
		if !ok {
			r.fail("dispatch-slot", v, token.NoPos, nil, "no tree is consulted for %s requests", v)
			continue
		}
		if o, ok := used[s]; ok {
			r.fail("dispatch-slot", v, token.NoPos, nil, "requests for %s and %s are looked up in the same tree", o, v)
		}
		used[s] = v
	}
	rt := p.routeType()
	mf := ""
	if rt != nil {
		mf = p.routeMethod(rt, sh)
	}
	if mf == "" {
		r.fail("build-slot", "method", token.NoPos, nil, "the route built from a registered entry does not take over its method")
		return
	}
	bs := p.builders()
	if len(bs) == 0 {
		r.missing("function that adds routes to the engine's trees")
	}
	for _, fn := range bs {
		for _, v := range verbs {
			b := &buildRun{p: p, r: r, it: newInterp(p), verb: v}
			b.onAdd = func(s *State, ev *CallEv, res, route *Expr) {
				r.ok("build-slot", v)
				s.push("trees", ev.Args[0])
				if route == nil {
					r.fail("build-slot", v+"-handlers", ev.Pos, s, "the tree is given handlers %s that are not those of a route", ev.Args[2])
				}
			}
			b.onEnd = func(s *State, pos token.Pos) {
				for _, t := range s.lists["trees"] {
					f, k, ok := b.holder(s, strip(t))
					if !ok {
						r.fail("build-slot", v, pos, s, "a %s route is added to a tree that is not kept in a fixed slot of the engine: %s", v, t)
					} else if (slot{f, k}) != slots[v] {
						r.fail("build-slot", v, pos, s, "%s routes are added to slot %d of %s, %s requests are looked up in slot %d of %s", v, k, f, v, slots[v].k, slots[v].field)
					}
				}
				delete(s.lists, "trees")
			}
			b.run(fn, rt, mf)
		}
	}
	c08Print(p, r, slots)
	c08Tables(p, r, slots)
}

func c08Any(p *Program, r *Report, sh *routerShape, entry func(rr *regRun, e *exit, obj *Expr, what string) string) {
	fn := p.method(p.water, "Router", "ANY")
	ex, _ := p.water.Members["MethodAnyExclude"].(*ssa.Global)
	if fn == nil || ex == nil {
		r.missing("Router.ANY and MethodAnyExclude")
		return
	}
	lists := [][]string{nil, {}}
	for _, v := range verbs {
		lists = append(lists, []string{v})
	}
	for i, l := range lists {
		name := "ANY excluding " + strings.Join(l, ",")
		want := map[string]bool{}
		for _, v := range verbs {
			want[v] = true
		}
		var rr *regRun
		// entries are looked at when the iteration that made them ends
		flush := func(rr *regRun, s *State, pos token.Pos) {
			for _, o := range s.lists["pending"] {
				m := "?"
				if o.Op == OpConst {
					r.fail("any", "list", pos, s, "%s: cannot tell which entries are registered", name)
				} else if x := entry(rr, &exit{st: s, pos: pos}, o, "ANY"); x != "" {
					m = x
				}
				s.auto["registered"] += m + " "
			}
			delete(s.lists, "pending")
		}
		rr, exits := p.runReg(fn, func(run *regRun, st *State) {
			rr = run
			it := rr.it
			it.hooks.Store = func(s *State, fr *Frame, addr, val *Expr, in ssa.Instruction) {
				if addr.Op != OpFieldAddr || addr.Name != sh.sub || addr.Args[0] != rr.args[0] {
					return
				}
				l, ok := it.registered(val, it.load(s, addr, derefT(addr.Typ)))
				if !ok {
					l = []*Expr{it.in.intc(0)}
				}
				s.push("pending", l...)
			}
			it.hooks.Arrive = func(s *State, fr *Frame, blk *ssa.BasicBlock, back bool) {
				if fr.parent == nil {
					flush(rr, s, instrPos(blk.Instrs[0]))
				}
			}
			g := it.in.mk(Expr{Op: OpGlobal, Glob: ex, Typ: ex.Type()})
			if i == 0 {
				name = "ANY with the default exclusions"
				delete(want, "HEAD")
				delete(want, "OPTIONS")
				keepInitial(it, st, g)
				return
			}
			var args []*Expr
			for _, v := range l {
				args = append(args, it.str(v))
				delete(want, v)
			}
			st.mem[g] = it.in.mk(Expr{Op: OpList, Args: args, Typ: derefT(ex.Type())})
		})
		for j := range exits {
			e := &exits[j]
			flush(rr, e.st, e.pos)
			r.ok("any", name)
			got := map[string]int{}
			for _, m := range strings.Fields(e.st.auto["registered"]) {
				got[m]++
			}
			for _, v := range verbs {
				n := got[v]
				delete(got, v)
				if want[v] && n != 1 || !want[v] && n != 0 {
					r.fail("any", v, e.pos, e.st, "%s registers %d routes for %s", name, n, v)
				}
			}
			if len(got) > 0 {
				r.fail("any", "other", e.pos, e.st, "%s registers routes for unsupported methods %v", name, sortedKeys(got))
			}
		}
		r.absorb(rr.it, "ANY")
	}
}

// keepInitial gives the exported variable g its initial content.
func keepInitial(it *Interp, st *State, g *Expr) {
	roots := map[*Expr]bool{g: true}
	for again := true; again; {
		again = false
		for c, v := range it.globals {
			if roots[addrRoot(c)] {
				if _, ok := st.mem[c]; !ok {
					st.mem[c] = v
					again = true
				}
				it.in.walk(v, func(x *Expr) bool {
					if (x.Op == OpAlloc || x.Op == OpMake) && !roots[x] {
						roots[x] = true
						again = true
					}
					return true
				})
			}
		}
	}
}

// c08Print checks the exported engine methods that take a method name.
func c08Print(p *Program, r *Report, slots map[string]slot) {
	field := slots["GET"].field
	for _, f := range p.Funcs() {
		if !isMethodOf(f, p.role.engine) || f.Object() == nil || !f.Object().Exported() || len(f.Params) != 2 || !isStringT(f.Params[1].Type()) || !strings.HasPrefix(f.Name(), "Print") {
			continue
		}
		for _, v := range verbs {
			it := newInterp(p)
			st := it.initial()
			args := it.Params(f)
			st.facts[it.in.eq(args[0], it.in.zero(args[0].Typ))] = false
			args[1] = it.str(v)
			it.hooks.Opaque = func(g *ssa.Function, ev *CallEv) bool {
				for _, q := range g.Params {
					if types.Identical(derefT(q.Type()), p.role.node) {
						return true
					}
				}
				return false
			}
			it.hooks.Override = func(s *State, ev *CallEv) (*Expr, bool) {
				if ev.Name == "strings.ToUpper" || ev.Name == "strings.TrimSpace" {
					if c, ok := ev.Args[0].constStr(); ok && c == strings.ToUpper(c) {
						return ev.Args[0], true
					}
				}
				return nil, false
			}
			it.hooks.Load = func(s *State, fr *Frame, a *Expr, in ssa.Instruction) {
				if a.Op != OpIndexAddr || a.Args[0].Op != OpFieldAddr || a.Args[0].Args[0] != args[0] || a.Args[0].Name != field {
					return
				}
				r.ok("print-slot", f.Name()+" "+v)
				if k, ok := a.Args[1].constInt(); !ok || k != slots[v].k {
					r.fail("print-slot", f.Name(), instrPos(in), s, "%s(%q) reads slot %s, the routes of %s are in slot %d", f.Name(), v, a.Args[1], v, slots[v].k)
				}
			}
			it.startWith(f, st, args)
			r.absorb(it, f.Name())
		}
	}
}

// c08Tables compares the package's tables of methods with each other.
func c08Tables(p *Program, r *Report, slots map[string]slot) {
	it := newInterp(p)
	st := it.initial()
	isVerb := map[string]bool{}
	for _, v := range verbs {
		isVerb[v] = true
	}
	var names []string
	for n := range p.water.Members {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		g, ok := p.water.Members[n].(*ssa.Global)
		if !ok || token.IsExported(n) {
			continue
		}
		ga := it.in.mk(Expr{Op: OpGlobal, Glob: g, Typ: g.Type()})
		got := map[string]*Expr{}
		total := 0
		switch t := derefT(g.Type()).Underlying().(type) {
		case *types.Map:
			if !isStringT(t.Key()) {
				continue
			}
			m := it.load(st, ga, derefT(g.Type()))
			for c, v := range st.mem {
				if c.Op == OpMapCell && c.Args[0] == m {
					if k, ok := c.Args[1].constStr(); ok {
						total++
						if isVerb[k] {
							got[k] = v
						}
					}
				}
			}
		case *types.Slice, *types.Array:
			v := it.load(st, ga, derefT(g.Type()))
			for c, x := range st.mem {
				if c.Op == OpIndexAddr && (c.Args[0] == v || v.Op == OpSlice && c.Args[0] == v.Args[0] || c.Args[0] == ga) {
					if k, ok := x.constStr(); ok {
						total++
						if isVerb[k] {
							got[k] = nil
						}
					}
				}
			}
		default:
			continue
		}
		if len(got) < 4 || len(got) < total {
			continue
		}
		r.ok("table", n)
		for _, v := range verbs {
			x, ok := got[v]
			if !ok {
				r.fail("table", n+" "+v, g.Pos(), nil, "the method table %s does not list %s", n, v)
				continue
			}
			if x != nil {
				if k, ok := x.constInt(); ok && k != slots[v].k {
					r.fail("table", n+" "+v, g.Pos(), nil, "the method table %s gives %s the index %d, its routes are in slot %d", n, v, k, slots[v].k)
				}
			}
		}
	}
}

// ---- C13 ----

func c13(p *Program, r *Report) {
	sh := p.shapeOf()
	rt := p.routeType()
	mf := ""
	if sh != nil && rt != nil {
		mf = p.routeMethod(rt, sh)
	}
	if mf == "" {
		r.missing("registered entries and the routes built from them")
		return
	}
	slots := map[string]slot{}  // trees
	tables := map[string]slot{} // fast tables
	params := p.fieldOfType(p.role.ctx, p.named(p.water, "Params"))
	for _, v := range verbs {
		d := &dispatch{p: p, r: r, it: newInterp(p), sc: scenario{1, 1, false, v}}
		it := d.it
		path := func(s *State, e *Expr) bool {
			e = strip(e)
			return e.Op == OpInit && e.Args[0].Op == OpFieldAddr && e.Args[0].Name == "Path" && mentionsReqField(e.Args[0].Args[0], "URL")
		}
		d.onMatch = func(s *State, ev *CallEv) {
			if f, k, ok := slotOf(ev.Args[0], d.args[0]); ok {
				slots[v] = slot{f, k}
			}
			if !path(s, ev.Args[1]) {
				r.fail("match-read", v, ev.Pos, s, "the tree is asked for %s instead of the request's path", ev.Args[1])
			}
		}
		d.onStart = func(s *State, ev *CallEv, c *Expr) {
			kind, n := d.chosen(s, c, d.ctxField(s, c, p.role.handlers))
			if kind != "route" {
				return
			}
			n = strip(n)
			par := d.ctxField(s, c, params)
			switch {
			case n.Op == OpExtract && n.Args[0].Op == OpRes || n.Op == OpRes:
				r.ok("match-read", v)
				res := n
				if n.Op == OpExtract {
					res = n.Args[0]
				}
				if strip(par) != it.extract(res, 1, nil) && !(par.Op == OpExtract && par.Args[0] == res && par.Name == "1") {
					r.fail("params", v, ev.Pos, s, "the parameters of the request are %s, not those of the match", par)
				}
			case n.Op == OpLookup:
				r.ok("table-read", v)
				f, k, ok := slotOf(n.Args[0], d.args[0])
				if !ok {
					r.fail("table-read", v, ev.Pos, s, "the node comes from %s, which is no fast table of the engine", n.Args[0])
				} else {
					tables[v] = slot{f, k}
				}
				if !path(s, n.Args[1]) {
					r.fail("table-read", v, ev.Pos, s, "the fast table is asked for %s instead of the request's path", n.Args[1])
				}
				if !optionOn(it, s, d.args[0]) {
					r.fail("table-read", v, ev.Pos, s, "the fast table is used although static routing may be off")
				}
				if it.nilness(s, par) != 1 && !emptyMap(it, s, par) {
					r.fail("params", v, ev.Pos, s, "a static route is served with parameters %s", par)
				}
			default:
				r.fail("match-read", v, ev.Pos, s, "the node served is %s, neither a match nor a fast-table entry", n)
			}
		}
		for _, e := range d.run() {
			if !e.panic && e.st.auto["started"] == "" && len(e.st.lists["heads"]) > 0 {
				if !d.unmatched(e.st) {
					r.fail("fallback", v, e.pos, e.st, "the request is answered without a handler although the full match was not tried")
				}
			}
		}
		r.absorb(it, "ServeHTTP")
	}
	preds := map[*ssa.Function]bool{}
	for _, fn := range p.builders() {
		for _, v := range verbs {
			b := &buildRun{p: p, r: r, it: newInterp(p), verb: v}
			it := b.it
			b.onAdd = func(s *State, ev *CallEv, res, route *Expr) {
				s.lists["last"] = []*Expr{res, ev.Args[1], route, ev.Args[0]}
			}
			b.onMap = func(s *State, m, k, val *Expr, pos token.Pos) {
				if mt, ok := m.Typ.Underlying().(*types.Map); !ok || !types.Identical(derefT(mt.Elem()), p.role.node) {
					return
				}
				r.ok("table-write", v)
				l := s.lists["last"]
				if l == nil {
					r.fail("table-write", v, pos, s, "a fast-table entry is written for no route of the tree")
					return
				}
				if strip(val) != strip(l[0]) {
					r.fail("table-write", v, pos, s, "the fast table is given %s, the tree holds %s", val, l[0])
				}
				if strip(k) != strip(l[1]) {
					r.fail("table-write", v, pos, s, "the fast-table entry is written under %s, the tree was given %s", k, l[1])
				}
				okS := false
				for f, val := range s.facts {
					if val && f.Op == OpRes && len(f.Args) == 1 && strip(f.Args[0]) == strip(l[0]) {
						okS = true
						for _, g := range p.Funcs() {
							if fullName(g) == f.Name {
								preds[g] = true
							}
						}
					}
					if val && f.Op == OpCall && len(f.Args) == 1 && strip(f.Args[0]) == strip(l[0]) {
						okS = true
						for _, g := range p.Funcs() {
							if fullName(g) == f.Name {
								preds[g] = true
							}
						}
					}
				}
				if !okS {
					r.fail("table-write", v+"-static", pos, s, "a fast-table entry is written for a route that is not known to be static")
				}
				if !noEmptySegment(it, s, k) {
					r.fail("table-write", v+"-empty", pos, s, "a fast-table entry is written for a pattern that may hold an empty inner segment, which the tree drops")
				}
				s.push("tables", m)
			}
			b.onEnd = func(s *State, pos token.Pos) {
				for _, t := range s.lists["tables"] {
					f, k, ok := b.holder(s, strip(t))
					if !ok {
						r.fail("table-slot", v, pos, s, "the table %s written for a %s route is not kept in a slot of the engine", t, v)
					} else if tables[v] != (slot{}) && tables[v] != (slot{f, k}) {
						r.fail("table-slot", v, pos, s, "static %s routes are entered in slot %d of %s, requests are looked up in slot %d of %s", v, k, f, tables[v].k, tables[v].field)
					}
				}
				delete(s.lists, "tables")
				delete(s.lists, "last")
			}
			b.run(fn, rt, mf)
		}
	}
	var ps []*ssa.Function
	for f := range preds {
		ps = append(ps, f)
	}
	sort.Slice(ps, func(i, j int) bool { return ps[i].String() < ps[j].String() })
	for _, f := range ps {
		r.ok("static-check", p.fnName(f))
		c13Static(p, r, f)
	}
}

// optionOn reports whether a boolean option of the engine is known true.
func optionOn(it *Interp, s *State, engine *Expr) bool {
	for f, v := range s.facts {
		if v && f.Op == OpInit && f.Args[0].Op == OpFieldAddr && f.Args[0].Name == "EnableStaticRouter" && addrBase(f.Args[0]) == engine {
			return true
		}
	}
	return false
}

func addrBase(a *Expr) *Expr {
	for a.Op == OpFieldAddr || a.Op == OpIndexAddr || a.Op == OpInit {
		a = a.Args[0]
	}
	return a
}

func emptyMap(it *Interp, s *State, m *Expr) bool {
	m = strip(m)
	if m.Op != OpMake {
		return false
	}
	for c := range s.mem {
		if c.Op == OpMapCell && c.Args[0] == m {
			return false
		}
	}
	return true
}

// noEmptySegment proves that the pattern k does not contain "//".
func noEmptySegment(it *Interp, s *State, k *Expr) bool {
	for f, v := range s.facts {
		if f.Op == OpCall && f.Name == "strings.Contains" && !v && strip(f.Args[0]) == strip(k) {
			if c, ok := f.Args[1].constStr(); ok && (c == "//" || c == "/") {
				return true
			}
		}
	}
	for _, x := range it.in.byID {
		if x.Op == OpCall && x.Name == "strings.Index" && strip(x.Args[0]) == strip(k) {
			if c, ok := x.Args[1].constStr(); ok && c == "//" && it.truth(s, it.in.lss(x, it.in.intc(0))) == 1 {
				return true
			}
		}
	}
	return false
}

// c13Static proves that f(n) true implies that n and all its ancestors are of
// the static kind (the zero value of the kind field).
func c13Static(p *Program, r *Report, f *ssa.Function) {
	it := newInterp(p)
	st := it.initial()
	args := it.Params(f)
	parent := p.fieldOfType(p.role.node, pointerTo(p.role.node))
	kind := ""
	ns := p.role.node.Underlying().(*types.Struct)
	for i := 0; i < ns.NumFields(); i++ {
		if b, ok := ns.Field(i).Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
			kind = ns.Field(i).Name()
		}
	}
	if parent == "" || kind == "" {
		r.missing("parent and kind fields of the tree node")
		return
	}
	static := func(s *State, n *Expr) bool {
		for c, v := range s.facts {
			if v && c.Op == OpBin && c.Name == "==" && c.Args[0].Op == OpInit && c.Args[0].Args[0].Op == OpFieldAddr && c.Args[0].Args[0].Name == kind && c.Args[0].Args[0].Args[0] == n {
				if k, ok := c.Args[1].constInt(); ok && k == 0 {
					return true
				}
			}
		}
		return false
	}
	isParent := func(x, n *Expr) bool {
		x = strip(x)
		return x.Op == OpInit && x.Args[0].Op == OpFieldAddr && x.Args[0].Name == parent && x.Args[0].Args[0] == n
	}
	// loop form: every completed iteration checked the node it leaves
	it.hooks.Arrive = func(s *State, fr *Frame, blk *ssa.BasicBlock, back bool) {
		cur := s.lists["cur"]
		var now *Expr
		for _, in := range blk.Instrs {
			ph, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			if types.Identical(derefT(ph.Type()), p.role.node) {
				now = s.env[envKey{fr.id, ph}]
			}
		}
		if now == nil {
			return
		}
		if !back {
			if now != args[0] && !(isParent(now, args[0]) && static(s, args[0])) {
				r.fail("static-check", p.fnName(f), instrPos(blk.Instrs[0]), s, "the walk starts at %s", now)
			}
			return
		}
		_ = cur
		if !(now.Op == OpInit && now.Args[0].Op == OpFieldAddr && now.Args[0].Name == parent && static(s, now.Args[0].Args[0])) {
			r.fail("static-check", p.fnName(f), instrPos(blk.Instrs[0]), s, "the walk goes on to %s without having found the node before it static", now)
		}
	}
	for _, e := range it.startWith(f, st, args) {
		if e.panic {
			continue
		}
		v := e.vals[0]
		t := it.truth(e.st, v)
		if t == -1 {
			continue
		}
		// true because of the recursive result on the parent
		if t == 0 {
			if v.Op == OpRes && v.Name == fullName(f) && isParent(v.Args[0], args[0]) && static(e.st, args[0]) {
				continue
			}
			if v.Op == OpBin && v.Name == "==" && isParent(v.Args[0], args[0]) && v.Args[1].isNil() && static(e.st, args[0]) {
				continue
			}
			r.fail("static-check", p.fnName(f), e.pos, e.st, "the result %s does not prove the node and its ancestors static", v)
			continue
		}
		ok := false
		for c, val := range e.st.facts {
			if val && c.Op == OpBin && c.Name == "==" && c.Args[1].isNil() && types.Identical(derefT(c.Args[0].Typ), p.role.node) {
				// end of the chain: the node itself, or a loop variable
				n := c.Args[0]
				if n == args[0] || n.Op == OpSym || n.Op == OpInit && n.Args[0].Op == OpFieldAddr && n.Args[0].Name == parent && static(e.st, n.Args[0].Args[0]) {
					ok = true
				}
			}
			if val && c.Op == OpRes && c.Name == fullName(f) && isParent(c.Args[0], args[0]) && static(e.st, args[0]) {
				ok = true
			}
		}
		if !ok {
			r.fail("static-check", p.fnName(f), e.pos, e.st, "true is returned although the node or an ancestor may not be static")
		}
	}
	r.absorb(it, p.fnName(f))
}
