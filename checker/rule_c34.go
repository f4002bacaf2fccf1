package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C34", "Every exported function of the binding package, every setter, every function that fills values from request data and every function of the router package that binds is interpreted with arbitrary request data. Each index, slice cut, dereference, map update and single-result assertion, each reflect Index, and each reflect Elem of a value inside the target is an obligation: "+
		"the index is known to be inside, the pointer known to exist (a nil pointer is known to have been excluded or replaced). A parsed multipart form only exists where its parse is known to have succeeded. What a unit assumes of its arguments is checked at its calls.",
		map[string]int{"root": 15, "index": 3, "deref": 5, "elem": 4}, c34)
}

type c34t struct {
	p     *Program
	r     *Report
	u     *bindUnits
	data  map[*ssa.Function]bool // functions that receive parts of the target
	elems map[*ssa.Function]bool // units that take the element of their value without a check
	done  map[*ssa.Function]bool
	todo  []*ssa.Function
}

func c34(p *Program, r *Report) {
	c := &c34t{p: p, u: newBindUnits(p), elems: map[*ssa.Function]bool{}, data: map[*ssa.Function]bool{}}
	roots := c.roots()
	for _, rep := range []*Report{newReport(p, "C34"), r} {
		c.r = rep
		c.done = map[*ssa.Function]bool{}
		c.todo = append([]*ssa.Function(nil), roots...)
		for len(c.todo) > 0 {
			f := c.todo[0]
			c.todo = c.todo[1:]
			if !c.done[f] {
				c.done[f] = true
				rep.ok("root", p.fnName(f))
				c.one(f)
			}
		}
	}
}

func (c *c34t) roots() []*ssa.Function {
	p := c.p
	setter := p.setterTypes()
	var out []*ssa.Function
	for _, f := range p.Funcs() {
		if f.Synthetic != "" || f.Parent() != nil || len(f.Blocks) == 0 {
			continue
		}
		if f.Pkg == p.water {
			for _, b := range f.Blocks {
				for _, i := range b.Instrs {
					if call, ok := i.(ssa.CallInstruction); ok && (c.binds(call.Common()) && f.Object() != nil && f.Object().Exported()) {
						out = append(out, f)
					}
				}
			}
			continue
		}
		if f.Pkg != p.binding {
			continue
		}
		exported := f.Object() != nil && f.Object().Exported()
		if rc := f.Signature.Recv(); rc != nil && setter[typeKey(rc.Type())] {
			exported = true
		}
		if exported || c.u.walk[f] || c.u.leaf[f] && len(p.callersOutside(f, c.u.leaf)) > 0 {
			out = append(out, f)
		}
	}
	return out
}

// callersOutside lists the callers of f that are not in set.
func (p *Program) callersOutside(f *ssa.Function, set map[*ssa.Function]bool) []*ssa.Function {
	var out []*ssa.Function
	for _, g := range p.Funcs() {
		if set[g] {
			continue
		}
		for _, b := range g.Blocks {
			for _, i := range b.Instrs {
				if c, ok := i.(ssa.CallInstruction); ok && c.Common().StaticCallee() == f {
					out = append(out, g)
				}
			}
		}
	}
	return out
}

// binds: a call into the binding package.
func (c *c34t) binds(cc *ssa.CallCommon) bool {
	if cc.IsInvoke() {
		return strings.Contains(typeKey(cc.Value.Type()), "/water/binding.")
	}
	g := cc.StaticCallee()
	return g != nil && g.Pkg == c.p.binding && g.Object() != nil && g.Object().Exported() && strings.Contains(g.Name(), "Bind")
}

// partOf: the value is (part of) what a pointer in the target points to or an
// element of it, not the whole of the target.
func (c *c34t) one(f *ssa.Function) {
	p, r := c.p, c.r
	it := newInterp(p)
	in := it.in
	st := it.initial()
	args := c.u.args(it, f)
	unit := c.u.walk[f] || c.u.leaf[f]
	recv := f.Signature.Recv() != nil
	// validation gets parts of the target too
	whole := !unit && !c.recurses(f)
	for i, a := range args {
		switch t := a.Typ.Underlying().(type) {
		case *types.Pointer:
			// checked where it is called, or the program's own
			st.facts[in.eq(a, in.zero(a.Typ))] = false
		case *types.Interface:
			if i == 0 && recv || (unit || whole) && t.NumMethods() > 0 {
				st.facts[in.eq(a, in.zero(a.Typ))] = false
			}
		}
	}
	if i := filesParam(f); i >= 0 {
		st.facts[in.lss(in.lenOf(args[i]), in.intc(1))] = false
	}
	g := &guards{p: p, r: r, it: it, name: p.fnName(f)}
	multipartOf := func(e *Expr) bool {
		return e.Typ != nil && strings.HasSuffix(typeKey(e.Typ), "mime/multipart.Form")
	}
	keep := map[string]*Expr{}
	g.trust = func(s *State, e *Expr) bool {
		if e.Op == OpAssertOk {
			return false
		}
		e = stripChange(e)
		if e.Op == OpExtract && c.made(e.Args[0]) || c.made(e) {
			return true
		}
		if multipartOf(e) {
			id := s.auto["multipart"]
			return id != "" && it.nilness(s, keep[id]) == 1
		}
		// the target, which the program hands over, is what it is
		if e.Op == OpAssert || e.Op == OpExtract && e.Args[0].Op == OpAssert {
			b := e
			for len(b.Args) > 0 {
				b = stripIface(stripChange(b.Args[0]))
				if b.Op == OpParam {
					return whole
				}
				if b.Op == OpCall && b.Name == "reflect.ValueOf" {
					return whole
				}
			}
		}
		if e.Op == OpInit {
			switch a := e.Args[0]; a.Op {
			case OpGlobal:
				return true
			case OpFieldAddr:
				// the validator engine is made with the validator, a request comes with its URL, body and header
				b := stripChange(a.Args[0])
				if b.Op == OpParam && recv && b == args[0] {
					return true
				}
				k := typeKey(e.Typ)
				return strings.HasSuffix(k, "net/url.URL") || k == "net/http.Header" || k == "io.ReadCloser" || strings.HasSuffix(k, "net/http.Request")
			case OpIndexAddr:
				// the parser makes no empty entries
				return strings.HasSuffix(typeKey(e.Typ), "multipart.FileHeader")
			}
		}
		if e.Op == OpIndex && strings.HasSuffix(typeKeyOr(e.Typ), "multipart.FileHeader") {
			return true
		}
		return false
	}
	g.install()
	it.hooks.Opaque = func(h *ssa.Function, ev *CallEv) bool {
		if f.Pkg == p.water {
			return h.Pkg == p.binding && returnsError(h.Signature)
		}
		from := f
		if ev.Fr != nil && ev.Fr.fn != nil {
			from = ev.Fr.fn
		}
		return c.u.step(from, h)
	}
	it.hooks.After = func(s *State, ev *CallEv, res *Expr) {
		if ev.Name == "(reflect.Value).Set" && len(ev.Args) == 2 {
			if v := stripChange(it.snapshot(s, ev.Args[1])); v.Op == OpRes && v.Name == "reflect.New" {
				x := stripChange(it.snapshot(s, ev.Args[0]))
				s.facts[it.isNil(x)] = false
			}
		}
		if strings.HasSuffix(ev.Name, ".ParseMultipartForm") && res != nil && ev.Kind != "defer-stmt" {
			keep[itoa(res.ID)] = res
			s.auto["multipart"] = itoa(res.ID)
		}
	}
	it.hooks.Call = func(s *State, ev *CallEv) {
		if ev.Instr == nil || ev.Kind == "defer-stmt" || ev.Fr == nil {
			return
		}
		at := p.fnName(ev.Fr.fn)
		if ev.Cut && ev.Fn != nil && ev.Fn.Pkg == p.binding {
			c.todo = append(c.todo, ev.Fn)
		}
		if ev.Fn != nil && (ev.Cut || c.u.step(ev.Fr.fn, ev.Fn)) || ev.Invoke {
			c.hand(it, g, s, ev, at)
		}
		switch ev.Name {
		case "(reflect.Value).Index":
			v, i := it.snapshot(s, ev.Args[0]), it.snapshot(s, ev.Args[1])
			r.ok("index", p.pos(ev.Pos)+g.name)
			if it.truth(s, in.lss(i, in.intc(0))) != -1 || !c.inside(it, s, v, i) {
				r.fail("index", at+" reflect", ev.Pos, s, "%s is indexed with %s, which is not known to be within its length", v, i)
			}
		case "(reflect.Value).Elem":
			v := stripChange(it.snapshot(s, ev.Args[0]))
			if whole && c.handed(v) {
				return
			}
			r.ok("elem", p.pos(ev.Pos)+g.name)
			if it.pointsAt(s, v) {
				return
			}
			if v.Op == OpParam && unit {
				c.elems[f] = true // checked where it is called
				return
			}
			r.fail("elem", at, ev.Pos, s, "the element of %s is taken although it may be a nil pointer", v)
		case "(reflect.Value).IsNil":
			v := stripChange(it.snapshot(s, ev.Args[0]))
			r.ok("elem", p.pos(ev.Pos)+g.name)
			if !it.nillable(s, v) {
				r.fail("elem", at+" IsNil", ev.Pos, s, "%s is tested for nil although it may be of a kind that has no nil", v)
			}
		}
		if !strings.HasPrefix(ev.Name, "reflect.") && !strings.HasPrefix(ev.Name, "(reflect.") {
			g.call(s, ev)
		}
	}
	for _, e := range it.startWith(f, st, args) {
		if e.panic {
			r.fail("exit", g.name, e.pos, e.st, "%s panics", g.name)
		}
	}
	r.absorb(it, g.name)
}

// made: the result of a constructor outside the module.
func (c *c34t) made(e *Expr) bool {
	if e.Op != OpRes && e.Op != OpCall || strings.Contains(e.Name, "meilihao/water") {
		return false
	}
	n := e.Name[strings.LastIndexAny(e.Name, "./")+1:]
	return strings.HasPrefix(n, "New")
}

// recurses: f may call itself.
func (c *c34t) recurses(f *ssa.Function) bool {
	return c.p.fnReaches(f, map[*ssa.Function]bool{}, func(h *ssa.Function) bool {
		for _, b := range h.Blocks {
			for _, i := range b.Instrs {
				if call, ok := i.(ssa.CallInstruction); ok && call.Common().StaticCallee() == f {
					return true
				}
			}
		}
		return false
	})
}

// handed: the value of something the function was given by the program.
func (c *c34t) handed(v *Expr) bool {
	return v.Op == OpCall && v.Name == "reflect.ValueOf" && stripIface(stripChange(v.Args[0])).Op == OpParam
}

// pointsAt: v is known not to be a nil pointer.
func (it *Interp) pointsAt(s *State, v *Expr) bool {
	for _, a := range it.in.alternatives(v) {
		if a.Op != OpRes || a.Name != "reflect.New" {
			return it.truth(s, it.isNil(v)) == -1
		}
	}
	return true
}

func (it *Interp) isNil(v *Expr) *Expr {
	return it.in.mk(Expr{Op: OpCall, Name: "(reflect.Value).IsNil", Args: []*Expr{v}, Typ: typBool})
}

// nillable: v is known to be of a kind that has a nil.
func (it *Interp) nillable(s *State, v *Expr) bool {
	k := it.kindOf(v)
	kt := it.p.reflectType("Kind")
	for _, n := range []int64{18, 19, 20, 21, 22, 23, 26} {
		if it.truth(s, it.in.eq(k, it.typedInt(n, kt))) == 1 {
			return true
		}
	}
	return false
}

// inside: index i of v is known to exist.
func (c *c34t) inside(it *Interp, s *State, v, i *Expr) bool {
	in := it.in
	v = stripChange(v)
	n := in.mk(Expr{Op: OpCall, Name: "(reflect.Value).Len", Args: []*Expr{v}, Typ: typInt})
	if it.truth(s, in.lss(i, n)) == 1 {
		return true
	}
	all := true
	for _, a := range in.alternatives(v) {
		if a.Op != OpRes || a.Name != "reflect.MakeSlice" || it.truth(s, in.lss(i, a.Args[1])) != 1 {
			all = false
		}
	}
	return all
}

// hand checks what a step is given.
func (c *c34t) hand(it *Interp, g *guards, s *State, ev *CallEv, at string) {
	p, r := c.p, c.r
	what := shortName(ev.Name)
	if ev.Fn != nil {
		if i := filesParam(ev.Fn); i >= 0 && it.truth(s, it.in.lss(it.in.lenOf(ev.Args[i]), it.in.intc(1))) != -1 {
			r.fail("index", at+" files", ev.Pos, s, "%s may be given no file", what)
		}
	}
	if ev.Fn == nil && !ev.Invoke {
		return
	}
	for k, a := range ev.Args {
		if ev.Invoke && k == 0 {
			continue
		}
		a = stripChange(it.snapshot(s, a))
		b := a
		if a.Op == OpIface {
			b = a.Args[0]
		}
		if ev.Fn != nil && k < len(ev.Fn.Params) && derefT(ev.Fn.Params[k].Type()) == nil && a.Op != OpIface {
			continue
		}
		if b.Typ == nil || derefT(b.Typ) == nil {
			continue
		}
		r.ok("deref", p.pos(ev.Pos)+g.name)
		if !g.exists(s, b) && !(b.Op == OpChange && g.exists(s, b.Args[0])) {
			r.fail("deref", at+" "+what, ev.Pos, s, "%s is given %s, which may be nil", what, b)
		}
	}
	if ev.Fn == nil || !c.elems[ev.Fn] {
		return
	}
	// the callee takes the element of a pointer it is given
	i, _ := c.u.valueArg(ev.Fn)
	if i < 0 {
		return
	}
	v := stripChange(it.snapshot(s, ev.Args[i]))
	r.ok("elem", p.pos(ev.Pos)+g.name)
	kt := p.reflectType("Kind")
	if it.truth(s, it.in.eq(it.kindOf(v), it.typedInt(22, kt))) == -1 || it.pointsAt(s, v) {
		return
	}
	if v.Op == OpCall && (v.Name == "(reflect.Value).Elem" || v.Name == "reflect.Indirect") {
		return // a pointer to a pointer is not a supported target
	}
	u := &c24unit{c: &c24t{p: p, r: r, u: c.u}, it: it, f: ev.Fr.fn}
	t := it.typeOfValue(v)
	e := it.in.mk(Expr{Op: OpCall, Name: "(reflect.Type).Elem", Args: []*Expr{t}, Typ: p.reflectType("Type")})
	if u.typeIs(s, t, "*mime/multipart.FileHeader") == 1 || u.typeIs(s, e, "time.Time") == 1 {
		return // embedding these is not supported
	}
	r.fail("elem", at+" "+what, ev.Pos, s, "%s takes the element of %s, which may be a nil pointer", what, v)
}
