package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C12", "Handler is interpreted on router trees of every nesting up to three groups (the lists of middleware, handlers and patterns symbolic, of any length; the tree's add and the handler conversion opaque): each leaf's list given to the tree must denote, after flattening appends, copies and conversions, the root's Before list, then the Use lists from the outermost group to the innermost, then the leaf's own handlers, each once and no other. "+
		"The configured not-found list must be the Before list followed by the configured handlers. No cell of a router and no element of its lists may be written while building, and no append may extend a list that still belongs to a router. "+
		"The conversion keeps length and order (lists of 0 to 3 elements); Use and Before append to the receiver's own list, Before on a root only; Group is interpreted with every argument list of up to 3 elements.",
		map[string]int{"chain": 8, "not-found": 2, "use": 2, "group": 7, "convert": 4}, c12)
}

// rtree is one router of an interpreted tree.
type rtree struct {
	name   string
	method string // leaf
	sub    []*rtree
	up     *rtree
	obj    *Expr
	depth  int
}

func leaf(name, method string) *rtree { return &rtree{name: name, method: method} }
func group(name string, sub ...*rtree) *rtree {
	g := &rtree{name: name, sub: sub}
	for _, s := range sub {
		s.up = g
	}
	return g
}

func (t *rtree) walk(f func(*rtree)) {
	f(t)
	for _, s := range t.sub {
		f2 := s
		f2.depth = t.depth + 1
		f2.walk(f)
	}
}

func (t *rtree) leaves() []*rtree {
	var out []*rtree
	t.walk(func(x *rtree) {
		if x.method != "" {
			out = append(out, x)
		}
	})
	return out
}

// built is one call of the tree's add.
type built struct {
	node, tree, pattern, handlers *Expr
}

func builtOf(s *State) []*built {
	var out []*built
	for l := s.lists["adds"]; len(l) >= 4; l = l[4:] {
		out = append(out, &built{l[0], l[1], l[2], l[3]})
	}
	return out
}

// routerRun interprets Handler on one router tree.
type routerRun struct {
	p     *Program
	it    *Interp
	sh    *routerShape
	use   string // field Use appends to
	pre   string // field Before appends to
	root  *rtree
	objs  map[*Expr]*rtree
	conf  *Expr // configured not-found handlers
	nfnd  string
	exits []exit
	setup func(s *State)
	onBad func(s *State, pos token.Pos, what string)
}

func (rr *routerRun) ftype(name string) types.Type {
	for _, f := range rr.p.routerFields() {
		if f.Name() == name {
			return f.Type()
		}
	}
	return nil
}

func (rr *routerRun) field(s *State, t *rtree, name string) *Expr {
	ft := rr.ftype(name)
	return rr.it.load(s, rr.it.fieldAddr(t.obj, name, pointerTo(ft)), ft)
}

// initial value of a router's field
func (rr *routerRun) was(t *rtree, name string) *Expr {
	ft := rr.ftype(name)
	return rr.it.in.mk(Expr{Op: OpInit, Args: []*Expr{rr.it.fieldAddr(t.obj, name, pointerTo(ft))}, Typ: ft})
}

// conv reports whether f turns what users register into handlers.
func (p *Program) conv(f *ssa.Function) bool {
	sig := f.Signature
	if sig.Recv() != nil || sig.Results().Len() != 1 || sig.Params().Len() != 1 || p.inModule(f) == false {
		return false
	}
	a, ok := sig.Params().At(0).Type().Underlying().(*types.Slice)
	b, ok2 := sig.Results().At(0).Type().Underlying().(*types.Slice)
	return ok && ok2 && types.Identical(b.Elem(), p.role.handler) && types.IsInterface(a.Elem()) && !types.Identical(a.Elem(), p.role.handler)
}

// conv1 reports whether f turns one registered value into a handler.
func (p *Program) conv1(f *ssa.Function) bool {
	sig := f.Signature
	if sig.Recv() != nil || sig.Results().Len() != 1 || sig.Params().Len() != 1 || p.inModule(f) == false {
		return false
	}
	i, ok := sig.Params().At(0).Type().Underlying().(*types.Interface)
	return ok && i.Empty() && types.Identical(sig.Results().At(0).Type(), p.role.handler)
}

func (p *Program) newRouterRun(root *rtree, sh *routerShape, use, pre string) *routerRun {
	it := newInterp(p)
	it.apart = 1000000
	it.bulkConv = p.conv1
	rr := &routerRun{p: p, it: it, sh: sh, use: use, pre: pre, root: root, objs: map[*Expr]*rtree{}}
	it.objs = map[*Expr]bool{}
	root.walk(func(t *rtree) {
		t.obj = it.param(t.name, pointerTo(p.role.router))
		rr.objs[t.obj] = t
		it.objs[t.obj] = true
	})
	return rr
}

func (rr *routerRun) run(conf bool) {
	p, it := rr.p, rr.it
	in := it.in
	h := p.method(p.water, "Router", "Handler")
	st := it.initial()
	var all []*rtree
	rr.root.walk(func(t *rtree) { all = append(all, t) })
	for i, t := range all {
		st.facts[in.eq(t.obj, in.zero(t.obj.Typ))] = false
		for _, u := range all[i+1:] {
			st.facts[in.eq(t.obj, u.obj)] = false
		}
		set := func(name string, v *Expr) {
			st.mem[it.fieldAddr(t.obj, name, pointerTo(rr.ftype(name)))] = v
		}
		empty := func(name string) {
			st.facts[in.eq(in.lenOf(rr.was(t, name)), in.intc(0))] = true
		}
		if t.up == nil {
			set(rr.sh.parent, in.zero(rr.ftype(rr.sh.parent)))
		} else {
			set(rr.sh.parent, t.up.obj)
			empty(rr.pre)
		}
		if t.method != "" {
			set(rr.sh.method, it.str(t.method))
			set(rr.sh.sub, in.zero(rr.ftype(rr.sh.sub)))
			empty(rr.use)
		} else {
			set(rr.sh.method, it.str(""))
			empty(rr.sh.handlers)
			var l []*Expr
			for _, s := range t.sub {
				l = append(l, s.obj)
			}
			set(rr.sh.sub, in.mk(Expr{Op: OpList, Args: l, Typ: rr.ftype(rr.sh.sub)}))
		}
	}
	if rr.setup != nil {
		rr.setup(st)
	}
	opts := in.zero(h.Params[1].Type())
	if conf {
		el := h.Params[1].Type().Underlying().(*types.Slice).Elem()
		opts = in.mk(Expr{Op: OpList, Args: []*Expr{it.param("option", el)}, Typ: h.Params[1].Type()})
	}
	// text of patterns
	isText := func(f *ssa.Function, ev *CallEv) bool {
		sig := f.Signature
		if sig.Recv() == nil && sig.Results().Len() == 1 && sig.Params().Len() == 1 && isStringT(sig.Params().At(0).Type()) && isStringT(sig.Results().At(0).Type()) {
			_, c := ev.Args[0].constStr()
			return !c
		}
		return false
	}
	it.hooks.Opaque = func(f *ssa.Function, ev *CallEv) bool {
		return f == p.role.add || p.makesNode(f) || p.conv(f) || p.conv1(f) || isText(f, ev)
	}
	it.hooks.Override = func(s *State, ev *CallEv) (*Expr, bool) {
		if conf && ev.Fn == nil && ev.Callee != nil && strip(ev.Callee).Op == OpParam && len(ev.Args) == 1 {
			// the option configures the not-found handlers
			o := ev.Args[0]
			st, ok := derefT(o.Typ).Underlying().(*types.Struct)
			if !ok {
				return nil, false
			}
			for i := 0; i < st.NumFields(); i++ {
				f := st.Field(i)
				v := it.param("configured."+f.Name(), f.Type())
				it.store(s, it.fieldAddr(o, f.Name(), pointerTo(f.Type())), v, "")
				if sl, ok := f.Type().Underlying().(*types.Slice); ok && types.Identical(sl.Elem(), p.role.handler) {
					rr.conf, rr.nfnd = v, f.Name()
				}
			}
			return nil, true
		}
		if ev.Fn != nil && ev.Fn == p.role.add && ev.Kind != "defer-stmt" {
			return rr.newNode(s, "node"), true
		}
		if ev.Fn != nil && ev.Kind != "defer-stmt" && p.makesNode(ev.Fn) {
			return rr.newNode(s, "tree"), true
		}
		if ev.Fn != nil && isText(ev.Fn, ev) {
			return in.mk(Expr{Op: OpCall, Name: ev.Name, Args: ev.Args, Typ: ev.Fn.Signature.Results().At(0).Type()}), true
		}
		if ev.Fn != nil && p.conv(ev.Fn) && len(ev.Args) == 1 {
			l := it.snapshot(s, ev.Args[0])
			res := in.mk(Expr{Op: OpCall, Name: ev.Name, Args: []*Expr{l}, Typ: ev.Fn.Signature.Results().At(0).Type()})
			if p.convOK {
				it.assume(s, in.eq(in.lenOf(res), in.lenOf(l)), true)
			}
			return res, true
		}
		return nil, false
	}
	it.hooks.Call = func(s *State, ev *CallEv) {
		switch {
		case ev.Method == "append" && ev.Callee == nil && ev.Fn == nil && len(ev.Args) == 2:
			if own := rr.owned(s, ev.Args[0]); own != "" {
				if n, ok := in.lenOf(it.snapshot(s, ev.Args[1])).constInt(); !ok || n > 0 {
					rr.bad(s, ev.Pos, "a list that belongs to "+own+" is extended in place: its spare room is shared")
				}
			}
		case (ev.Method == "copy" || ev.Method == "clear") && ev.Fn == nil && len(ev.Args) > 0:
			if own := rr.owned(s, ev.Args[0]); own != "" {
				rr.bad(s, ev.Pos, "elements of a list that belongs to "+own+" are overwritten")
			}
		}
	}
	it.hooks.After = func(s *State, ev *CallEv, res *Expr) {
		if ev.Fn == p.role.add {
			s.push("adds", res, ev.Args[0], ev.Args[1], ev.Args[2])
			s.facts[in.eq(res, in.zero(res.Typ))] = false
		}
	}
	it.hooks.Store = func(s *State, fr *Frame, addr, val *Expr, instr ssa.Instruction) {
		a := addr
		for a.Op == OpFieldAddr || a.Op == OpIndexAddr {
			if t := rr.objs[a.Args[0]]; t != nil {
				rr.bad(s, instrPos(instr), "field "+a.Name+" of "+t.name+" is written")
				return
			}
			if a.Op == OpIndexAddr {
				if own := rr.owned(s, a.Args[0]); own != "" {
					rr.bad(s, instrPos(instr), "an element of a list that belongs to "+own+" is written")
					return
				}
			}
			a = a.Args[0]
		}
	}
	rr.exits = it.Run(h, st, []*Expr{rr.root.obj, opts}, nil)
}

// newNode is a node no other pointer leads to yet.
func (rr *routerRun) newNode(s *State, kind string) *Expr {
	it, in := rr.it, rr.it.in
	old := s.lists["nodes"]
	res := it.param(kind+itoa(len(old)), pointerTo(rr.p.role.node))
	s.facts[in.eq(res, in.zero(res.Typ))] = false
	for _, x := range old {
		s.facts[in.eq(x, res)] = false
	}
	s.push("nodes", res)
	return res
}

func (rr *routerRun) bad(s *State, pos token.Pos, what string) {
	if rr.onBad != nil {
		rr.onBad(s, pos, what)
	}
}

// owned tells which router's list e shares storage with ("" none).
func (rr *routerRun) owned(s *State, e *Expr) string {
	e = stripChange(e)
	for {
		switch e.Op {
		case OpSlice:
			if len(e.Args) > 3 && e.Args[3] != nil {
				hi := e.Args[2]
				if hi == nil {
					hi = rr.it.in.lenOf(e.Args[0])
				}
				if rr.it.truth(s, rr.it.in.eq(hi, e.Args[3])) == 1 {
					return "" // no spare room
				}
			}
			e = stripChange(e.Args[0])
			continue
		case OpAppend:
			// extended in place only if it was extended in place before
			if n, ok := rr.it.in.lenOf(e.Args[1]).constInt(); ok && n == 0 {
				e = stripChange(e.Args[0])
				continue
			}
			return ""
		case OpInit:
			if a := e.Args[0]; a.Op == OpFieldAddr {
				if t := rr.objs[a.Args[0]]; t != nil {
					return t.name
				}
			}
		}
		return ""
	}
}

// seq flattens a list into what it is made of: whole lists and elements.
func (rr *routerRun) seq(s *State, e *Expr) []*Expr {
	in := rr.it.in
	e = stripChange(rr.it.snapshot(s, e))
	switch e.Op {
	case OpAppend:
		return append(rr.seq(s, e.Args[0]), rr.seq(s, e.Args[1])...)
	case OpList:
		return append([]*Expr{}, e.Args...)
	case OpConst:
		if e.isNil() {
			return nil
		}
	case OpRes, OpCall:
		if f := e.Name; f != "" && len(e.Args) == 1 && (rr.p.convName(f) || strings.HasPrefix(f, "each ")) {
			return rr.seq(s, e.Args[0])
		}
	case OpMake:
		if n, ok := in.lenOf(e).constInt(); ok && n == 0 {
			return nil
		}
	case OpSlice:
		if e.Args[1] == nil || isZero(e.Args[1]) {
			if e.Args[2] != nil {
				if isZero(e.Args[2]) {
					return nil
				}
				if rr.it.truth(s, in.eq(e.Args[2], in.lenOf(e.Args[0]))) != 1 {
					return []*Expr{e}
				}
			}
			return rr.seq(s, e.Args[0])
		}
	}
	if rr.it.truth(s, in.eq(in.lenOf(e), in.intc(0))) == 1 || rr.it.nilness(s, e) == 1 {
		return nil
	}
	return []*Expr{e}
}

func isZero(e *Expr) bool {
	n, ok := e.constInt()
	return ok && n == 0
}

// convName reports whether a module function of that name converts lists of
// handlers.
func (p *Program) convName(n string) bool {
	if p.convs == nil {
		p.convs = map[string]bool{}
		for _, f := range p.Funcs() {
			if p.conv(f) {
				p.convs[fullName(f)] = true
			}
		}
	}
	return p.convs[n]
}

func names(l []*Expr) string {
	if len(l) == 0 {
		return "nothing"
	}
	var out []string
	for _, e := range l {
		out = append(out, strings.ReplaceAll(e.String(), "init ", ""))
	}
	return strings.Join(out, ", ")
}

func sameSeq(a, b []*Expr) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// want is the chain a leaf must get.
func (rr *routerRun) want(s *State, l *rtree) []*Expr {
	var up []*rtree
	for t := l.up; t != nil; t = t.up {
		up = append(up, t)
	}
	out := rr.seq(s, rr.was(up[len(up)-1], rr.pre))
	for i := len(up) - 1; i >= 0; i-- {
		out = append(out, rr.seq(s, rr.was(up[i], rr.use))...)
	}
	return append(out, rr.seq(s, rr.was(l, rr.sh.handlers))...)
}

// shapes are the router trees interpreted.
func routerShapes() []*rtree {
	return []*rtree{
		group("root", leaf("leaf", "GET")),
		group("root", group("group1", leaf("leaf", "GET"))),
		group("root", group("group1", group("group2", leaf("leaf", "POST")))),
		group("root", leaf("leafA", "GET"), group("group1", leaf("leafB", "GET")), leaf("leafC", "PUT")),
		group("root", group("group1", leaf("leafA", "GET"), leaf("leafB", "POST")), group("group2", leaf("leafC", "GET"))),
		group("root", group("group1", group("group2", group("group3", leaf("leaf", "GET"))))),
	}
}

func shapeName(t *rtree) string {
	if t.method != "" {
		return t.method
	}
	var l []string
	for _, s := range t.sub {
		l = append(l, shapeName(s))
	}
	return "[" + strings.Join(l, " ") + "]"
}

func c12(p *Program, r *Report) {
	sh := p.shapeOf()
	if sh == nil {
		r.missing("fields a registered route is stored in")
		return
	}
	use, pre := c12Use(p, r, sh)
	if use == "" || pre == "" {
		return
	}
	p.convOK = c12Conv(p, r)
	c12Group(p, r, sh, use, pre)
	c12Kinds(p, r, sh, use, pre)
	c12NotFound(p, r, sh, use, pre)
	for _, t := range routerShapes() {
		c12Shape(p, r, sh, use, pre, t)
	}
}

func c12Shape(p *Program, r *Report, sh *routerShape, use, pre string, t *rtree) {
	rr := p.newRouterRun(t, sh, use, pre)
	name := "Handler" + shapeName(t)
	rr.onBad = func(s *State, pos token.Pos, what string) {
		r.fail("alter", "Handler", pos, s, "building an engine alters the router: %s", what)
	}
	rr.run(false)
	n := 0
	for _, e := range rr.exits {
		if e.panic {
			continue
		}
		n++
		s := e.st
		left := builtOf(s)
		for _, l := range t.leaves() {
			r.ok("chain", shapeName(t)+l.name)
			want := rr.want(s, l)
			found := -1
			for i, x := range left {
				if sameSeq(rr.seq(s, x.handlers), want) {
					found = i
					break
				}
			}
			if found < 0 {
				got := "nothing"
				if len(left) > 0 {
					got = names(rr.seq(s, left[0].handlers))
				}
				r.fail("chain", "Handler", e.pos, s, "no route gets the chain of %s in %s (%s); one gets %s", l.name, shapeName(t), names(want), got)
				continue
			}
			left = append(left[:found], left[found+1:]...)
		}
		for _, x := range left {
			r.fail("chain", "Handler-extra", e.pos, s, "a route gets the chain %s, which is not the chain of any leaf of %s", names(rr.seq(s, x.handlers)), shapeName(t))
		}
	}
	if n == 0 {
		r.missing("normal end of Handler for " + shapeName(t))
	}
	r.absorb(rr.it, name)
}

// c12Use checks the two ways of adding middleware and reports the fields used.
func c12Use(p *Program, r *Report, sh *routerShape) (use, pre string) {
	out := map[string]string{}
	for _, name := range []string{"Use", "Before"} {
		fn := p.method(p.water, "Router", name)
		if fn == nil || len(fn.Params) != 2 {
			r.missing("Router." + name)
			continue
		}
		// on a root and on a group
		for _, sub := range []bool{false, true} {
			rr, exits := p.runReg(fn, func(rr *regRun, st *State) {
				for _, f := range p.routerFields() {
					if f.Name() == sh.parent {
						a := rr.it.fieldAddr(rr.args[0], sh.parent, pointerTo(f.Type()))
						v := rr.it.in.zero(f.Type())
						if sub {
							v = rr.it.param("parent", f.Type())
							st.facts[rr.it.in.eq(v, rr.it.in.zero(v.Typ))] = false
						}
						st.mem[a] = v
					}
				}
			})
			n := 0
			for _, e := range exits {
				if e.panic {
					continue
				}
				n++
				if name == "Before" && sub {
					r.fail("before", "Before", e.pos, e.st, "Before is accepted on a router that is not the root: its middleware would not be global")
					continue
				}
				r.ok("use", name)
				for _, f := range p.routerFields() {
					v, old := rr.field(p, e.st, rr.args[0], f.Name()), rr.old[f.Name()]
					if v == old {
						continue
					}
					q := &routerRun{p: p, it: rr.it}
					if l := q.seq(e.st, v); sameSeq(l, append(q.seq(e.st, old), q.seq(e.st, rr.args[1])...)) && (out[name] == "" || out[name] == f.Name()) {
						out[name] = f.Name()
						continue
					}
					r.fail("use", name+"-"+f.Name(), e.pos, e.st, "%s turns %s of the router into %s instead of appending its arguments to one list", name, f.Name(), v)
				}
				if out[name] == "" {
					r.fail("use", name+"-lost", e.pos, e.st, "%s returns without having added the middleware to the router", name)
				} else if v := stripChange(rr.field(p, e.st, rr.args[0], out[name])); v == rr.old[out[name]] && rr.it.truth(e.st, rr.it.in.eq(rr.it.in.lenOf(rr.args[1]), rr.it.in.intc(0))) != 1 {
					r.fail("use", name+"-lost", e.pos, e.st, "%s may return without having added the middleware to the router", name)
				}
			}
			if n == 0 && !(name == "Before" && sub) {
				r.fail("use", name+"-never", fn.Pos(), nil, "%s never returns normally", name)
			}
			r.absorb(rr.it, name)
		}
	}
	use, pre = out["Use"], out["Before"]
	if use != "" && use == pre {
		r.fail("use", "same", token.NoPos, nil, "Use and Before add to the same list: global middleware is not kept apart from the root's own")
	}
	if use == "" || pre == "" {
		r.missing("lists Use and Before add to")
	}
	return use, pre
}

// c12Kinds checks what the trees interpreted take for granted: only a root has
// global middleware, only a route entry has handlers and it has no middleware.
func c12Kinds(p *Program, r *Report, sh *routerShape, use, pre string) {
	stores := func(f *ssa.Function) bool {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok {
					if a, ok := s.Addr.(*ssa.FieldAddr); ok && types.Identical(derefT(a.X.Type()), p.role.router) {
						return true
					}
				}
			}
		}
		return false
	}
	makes := func(g *ssa.Function) bool {
		rs := g.Signature.Results()
		return rs.Len() == 1 && types.Identical(derefT(rs.At(0).Type()), p.role.router)
	}
	callers := p.staticCallers()
	for _, f := range p.Funcs() {
		if f.Pkg != p.water || f.Parent() != nil || p.isInit(f) || f.Synthetic != "" {
			continue
		}
		if ex := f.Object() != nil && f.Object().Exported(); !ex && callers[f] > 0 {
			continue
		}
		if !p.fnReaches(f, map[*ssa.Function]bool{}, stores) {
			continue
		}
		name := p.fnName(f)
		it := newInterp(p)
		it.hooks.Opaque = func(g *ssa.Function, ev *CallEv) bool {
			return !isMethodOf(g, p.role.router) && !makes(g) && !p.fnReaches(g, map[*ssa.Function]bool{}, stores)
		}
		rr := &routerRun{p: p, it: it, objs: map[*Expr]*rtree{}}
		st := it.initial()
		args := it.Params(f)
		for _, a := range args {
			if types.Identical(derefT(a.Typ), p.role.router) {
				st.facts[it.in.eq(a, it.in.zero(a.Typ))] = false
			}
		}
		it.hooks.Store = func(s *State, fr *Frame, addr, val *Expr, instr ssa.Instruction) {
			if addr.Op != OpFieldAddr || !types.Identical(derefT(addr.Args[0].Typ), p.role.router) {
				return
			}
			x := addr.Args[0]
			fresh := x.Op == OpAlloc
			r.ok("store", name+p.pos(instrPos(instr)))
			if fresh {
				mine, other := "", ""
				switch addr.Name {
				case sh.handlers:
					mine, other = "leaf", "group"
				case use, pre, sh.sub:
					mine, other = "group", "leaf"
				}
				if mine == "" || len(rr.seq(s, val)) == 0 {
					return
				}
				s.push(mine, x)
				for _, y := range s.lists[other] {
					if x == y {
						r.fail("kinds", name+"-leaf", instrPos(instr), s, "a router gets both handlers of its own and middleware or routes beneath it")
					}
				}
				return
			}
			switch addr.Name {
			case pre:
				t := types.Type(types.NewPointer(p.role.router))
				if it.nilness(s, it.load(s, it.fieldAddr(x, sh.parent, pointerTo(t)), t)) != 1 {
					r.fail("kinds", name+"-"+pre, instrPos(instr), s, "%s of a router that may not be the root is changed: what is global there is not ahead of every route", pre)
				}
			case sh.handlers, sh.parent, sh.method, sh.pattern:
				r.fail("kinds", name+"-"+addr.Name, instrPos(instr), s, "%s of an existing router is changed: the routes beneath it get another chain", addr.Name)
			}
		}
		for _, e := range it.Run(f, st, args, nil) {
			if e.panic {
				continue
			}
			for _, x := range e.st.lists["leaf"] {
				for _, v := range e.vals {
					if it.in.contains(v, x) {
						r.fail("kinds", name+"-leaf", e.pos, e.st, "a route entry with handlers is handed out as a router")
					}
				}
			}
		}
		r.absorb(it, name)
	}
}

// c12NotFound checks the not-found handlers of the engine built.
func c12NotFound(p *Program, r *Report, sh *routerShape, use, pre string) {
	rr := p.newRouterRun(group("root", leaf("leaf", "GET")), sh, use, pre)
	rr.onBad = func(s *State, pos token.Pos, what string) {
		r.fail("alter", "Handler", pos, s, "building an engine alters the router: %s", what)
	}
	rr.run(true)
	in := rr.it.in
	n := 0
	for _, e := range rr.exits {
		if e.panic || rr.conf == nil || len(e.vals) != 1 {
			continue
		}
		s := e.st
		// the options the engine serves with
		var got *Expr
		es := p.role.engine.Underlying().(*types.Struct)
		for i := 0; i < es.NumFields(); i++ {
			f := es.Field(i)
			if st, ok := derefT2(f.Type()).Underlying().(*types.Struct); ok {
				for j := 0; j < st.NumFields(); j++ {
					if g := st.Field(j); g.Name() == rr.nfnd {
						base := rr.it.fieldAddr(e.vals[0], f.Name(), pointerTo(f.Type()))
						if derefT(f.Type()) != nil {
							base = rr.it.load(s, base, f.Type())
						}
						got = rr.it.load(s, rr.it.fieldAddr(base, g.Name(), pointerTo(g.Type())), g.Type())
					}
				}
			}
		}
		if got == nil {
			r.missing("not-found handlers of the engine")
			return
		}
		n++
		cempty := rr.it.truth(s, in.eq(in.lenOf(rr.conf), in.intc(0))) == 1
		r.ok("not-found", itoa(len(rr.seq(s, got)))+itoa(b2i(cempty)))
		g := rr.seq(s, got)
		want := append(rr.seq(s, rr.was(rr.root, pre)), rr.seq(s, rr.conf)...)
		if cempty && len(g) == 0 {
			continue // nothing configured: the default answer
		}
		if !sameSeq(g, want) {
			r.fail("not-found", "Handler", e.pos, s, "the not-found handlers of the engine are %s instead of %s", names(g), names(want))
		}
	}
	if n == 0 {
		r.missing("configured not-found handlers")
	}
	r.absorb(rr.it, "Handler with options")
}

func derefT2(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func unbox(e *Expr) *Expr {
	for e.Op == OpChange || e.Op == OpIface {
		e = e.Args[0]
	}
	return e
}

// c12Conv checks the functions that turn lists of registered values into
// handlers.
func c12Conv(p *Program, r *Report) bool {
	good := true
	n := 0
	for _, f := range p.Funcs() {
		if !p.conv(f) {
			continue
		}
		n++
		for k := 0; k <= 3; k++ {
			it := newInterp(p)
			in := it.in
			el := f.Params[0].Type().Underlying().(*types.Slice).Elem()
			var l []*Expr
			for i := 0; i < k; i++ {
				l = append(l, it.param("h"+itoa(i), el))
			}
			arg := in.mk(Expr{Op: OpList, Args: l, Typ: f.Params[0].Type()})
			it.hooks.Opaque = func(g *ssa.Function, ev *CallEv) bool { return p.conv1(g) }
			it.hooks.Override = func(s *State, ev *CallEv) (*Expr, bool) {
				if ev.Fn != nil && p.conv1(ev.Fn) {
					return in.mk(Expr{Op: OpCall, Name: ev.Name, Args: ev.Args, Typ: p.role.handler}), true
				}
				return nil, false
			}
			it.hooks.Store = func(s *State, fr *Frame, addr, val *Expr, instr ssa.Instruction) {
				for a := addr; a.Op == OpFieldAddr || a.Op == OpIndexAddr; a = a.Args[0] {
					if stripChange(a.Args[0]) == arg {
						good = false
						r.fail("convert", p.fnName(f)+"-arg", instrPos(instr), s, "the registered values are altered while they are converted")
					}
				}
			}
			for _, e := range it.Run(f, it.initial(), []*Expr{arg}, nil) {
				if e.panic {
					continue
				}
				r.ok("convert", p.fnName(f)+itoa(k))
				v := stripChange(it.snapshot(e.st, e.vals[0]))
				ok := false
				switch {
				case k == 0:
					m, known := in.lenOf(v).constInt()
					ok = known && m == 0
				case v.Op == OpList && len(v.Args) == k:
					ok = true
					for i := range l {
						c := strip(v.Args[i])
						if c.Op != OpCall || len(c.Args) != 1 || stripIface(c.Args[0]) != l[i] && c.Args[0] != l[i] {
							ok = false
						}
					}
				}
				if !ok {
					good = false
					r.fail("convert", p.fnName(f), e.pos, e.st, "a list of %d registered handlers is converted into %s, not into one handler for each, in order", k, v)
				}
			}
			if len(it.problem) > 0 {
				good = false
			}
			r.absorb(it, p.fnName(f))
		}
	}
	if n == 0 {
		r.missing("conversion of registered handlers")
		return false
	}
	return good
}

// c12Group checks how a group is created, for every argument list of up to
// three elements.
func c12Group(p *Program, r *Report, sh *routerShape, use, pre string) {
	fn := p.method(p.water, "Router", "Group")
	if fn == nil || len(fn.Params) != 3 || fn.Signature.Results().Len() != 1 {
		r.missing("Router.Group")
		return
	}
	lists := []string{"", "m", "s", "mm", "ms", "sm", "ss", "msm", "sms", "mmm"}
	for _, kinds := range lists {
		it := newInterp(p)
		in := it.in
		it.apart = 1000000
		it.bulkConv = p.conv1
		it.objs = map[*Expr]bool{}
		args := it.Params(fn)
		st := it.initial()
		st.facts[in.eq(args[0], in.zero(args[0].Typ))] = false
		el := fn.Params[2].Type().Underlying().(*types.Slice).Elem()
		void := func(t types.Type) types.Type {
			v := types.NewVar(token.NoPos, nil, "", types.NewPointer(t))
			return types.NewSignatureType(nil, nil, nil, types.NewTuple(v), nil, false)
		}
		var raw, boxed []*Expr
		for i, k := range kinds {
			t := void(p.role.ctx)
			if k == 's' {
				t = void(p.role.router)
			}
			x := it.param("arg"+itoa(i), t)
			st.facts[in.eq(x, in.zero(t))] = false
			raw = append(raw, x)
			boxed = append(boxed, in.mk(Expr{Op: OpIface, Args: []*Expr{x}, Typ: el}))
		}
		list := in.mk(Expr{Op: OpList, Args: boxed, Typ: fn.Params[2].Type()})
		old := map[string]*Expr{}
		ftype := map[string]types.Type{}
		for _, f := range p.routerFields() {
			ftype[f.Name()] = f.Type()
			old[f.Name()] = it.load(st, it.fieldAddr(args[0], f.Name(), pointerTo(f.Type())), f.Type())
		}
		get := func(s *State, o *Expr, name string) *Expr {
			return it.load(s, it.fieldAddr(o, name, pointerTo(ftype[name])), ftype[name])
		}
		rr := &routerRun{p: p, it: it, objs: map[*Expr]*rtree{}}
		label := "Group(" + kinds + ")"
		fail := func(rule string, pos token.Pos, s *State, format string, a ...any) {
			r.fail(rule, "Group", pos, s, label+": "+format, a...)
		}
		it.hooks.Override = func(s *State, ev *CallEv) (*Expr, bool) {
			if ev.Fn != nil || ev.Callee == nil {
				return nil, false
			}
			for i, x := range raw {
				if strip(ev.Callee) != x {
					continue
				}
				if kinds[i] != 's' {
					fail("group", ev.Pos, s, "middleware %d is called while the group is created", i)
					return nil, true
				}
				if len(ev.Args) != 1 {
					return nil, true
				}
				// the callback may add to the lists of the group
				g := ev.Args[0]
				s.push("called", x, g)
				was := rr.seq(s, get(s, g, use))
				ext := it.param("added"+itoa(i), ftype[use])
				now := in.mk(Expr{Op: OpAppend, Args: []*Expr{in.mk(Expr{Op: OpList, Args: was, Typ: ftype[use]}), ext}, Typ: ftype[use]})
				it.store(s, it.fieldAddr(g, use, pointerTo(ftype[use])), now, "")
				sub := it.param("routes"+itoa(i), ftype[sh.sub])
				it.store(s, it.fieldAddr(g, sh.sub, pointerTo(ftype[sh.sub])), in.mk(Expr{Op: OpAppend, Args: []*Expr{get(s, g, sh.sub), sub}, Typ: ftype[sh.sub]}), "")
				return nil, true
			}
			return nil, false
		}
		n := 0
		for _, e := range it.Run(fn, st, []*Expr{args[0], args[1], list}, nil) {
			if e.panic {
				continue
			}
			n++
			s := e.st
			r.ok("group", label)
			g := strip(e.vals[0])
			if g.Op != OpAlloc {
				fail("group", e.pos, s, "the router returned is %s, not a new one", g)
				continue
			}
			if x, ok := it.registered(get(s, args[0], sh.sub), old[sh.sub]); !ok || len(x) != 1 || x[0] != g {
				fail("group", e.pos, s, "the group returned is not added once to the routes of its parent")
			}
			for _, f := range p.routerFields() {
				if f.Name() != sh.sub && get(s, args[0], f.Name()) != old[f.Name()] {
					fail("group", e.pos, s, "%s of the parent becomes %s", f.Name(), get(s, args[0], f.Name()))
				}
			}
			if get(s, g, sh.parent) != args[0] {
				fail("group", e.pos, s, "the group's parent is %s", get(s, g, sh.parent))
			}
			if get(s, g, sh.pattern) != args[1] {
				fail("group", e.pos, s, "the group's pattern is %s", get(s, g, sh.pattern))
			}
			for _, name := range []string{pre, sh.handlers} {
				if l := rr.seq(s, get(s, g, name)); len(l) != 0 {
					fail("group", e.pos, s, "the group starts with %s: %s", name, names(l))
				}
			}
			if m, ok := get(s, g, sh.method).constStr(); !ok || m != "" {
				fail("group", e.pos, s, "the group has method %s", get(s, g, sh.method))
			}
			// middleware and callbacks, in order
			var want, calls, subs []*Expr
			for i, x := range raw {
				if kinds[i] == 'm' {
					want = append(want, x)
				} else {
					want = append(want, it.param("added"+itoa(i), ftype[use]))
					subs = append(subs, it.param("routes"+itoa(i), ftype[sh.sub]))
					calls = append(calls, x, g)
				}
			}
			var got []*Expr
			for _, x := range rr.seq(s, get(s, g, use)) {
				got = append(got, unbox(x))
			}
			if !sameSeq(got, want) {
				fail("group", e.pos, s, "the group's middleware is %s instead of %s", names(got), names(want))
			}
			if !sameSeq(s.lists["called"], calls) {
				fail("group", e.pos, s, "the functions called with the group are %s instead of %s", names(s.lists["called"]), names(calls))
			}
			if got := rr.seq(s, get(s, g, sh.sub)); !sameSeq(got, subs) {
				fail("group", e.pos, s, "the group's routes are %s instead of %s", names(got), names(subs))
			}
		}
		if n == 0 {
			fail("group", fn.Pos(), nil, "the group is never created")
		}
		r.absorb(it, label)
	}
}
