package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C11", "Handler is interpreted on router trees of every nesting up to three groups (patterns, lists of handlers and middleware symbolic; the tree's add opaque): at every normal end each leaf was added exactly once, to the tree the engine keeps for its method, under the text made of all patterns from the root to the leaf (trimmed, possibly rewritten as a whole), with its own chain, known not to be empty; the node returned carries a route with the leaf's method and that text, and the text is known to begin with a slash and not to end with one (or to be a lone slash). "+
		"The functions that add to the tree are interpreted on a node with lists of any length: a normal end has proved the new node different (kind, names, expression) from every node already in its list, or descends into the one it equals; the handlers and the rest of the pattern are handed on unchanged, every list keeps its nodes. "+
		"The constructor of nodes brings names to one spelling. The conversion of one handler is interpreted for nil, nil functions, unsupported and supported types: the former never return, the result of the latter calls the handler once with the context. FullPath is interpreted too: it returns that very text of the route of the node the context keeps, and the empty text only where there is none. Root-only operations never return normally on a sub-router.",
		map[string]int{"entered": 8, "end": 2, "descend": 2, "insert": 2, "canonical": 3, "handler": 8, "root-only": 5, "convert": 4, "reported": 2}, c11)
}

func c11(p *Program, r *Report) {
	sh := p.shapeOf()
	if sh == nil {
		r.missing("fields a registered route is stored in")
		return
	}
	use, pre := c12Use(p, newReport(p, r.Prop), sh)
	if use == "" || pre == "" {
		r.missing("lists Use and Before add to")
		return
	}
	entry := verbEntries(p, r, sh)
	c08Any(p, r, sh, entry)
	c11FullPath(p, r)
	c11Handler(p, r)
	c11RootOnly(p, r, sh)
	c11Tree(p, r)
	c10Insert(p, r, false)
	p.convOK = c12Conv(p, r)
	for i, t := range routerShapes() {
		c11Shape(p, r, sh, use, pre, t, false)
		if i == 0 {
			c11Shape(p, r, sh, use, pre, t, true)
		}
		if len(r.Violations) > 0 {
			return // the larger trees would fail the same way
		}
	}
}

// textParts takes a concatenated text apart.
func (it *Interp) textParts(s *State, e *Expr) []*Expr {
	e = stripChange(e)
	if c, ok := e.constStr(); ok && c == "" {
		return nil
	}
	if e.Op == OpBin && e.Name == "+" {
		return append(it.textParts(s, e.Args[0]), it.textParts(s, e.Args[1])...)
	}
	if e.Op == OpCall && e.Name == "strings.Join" && len(e.Args) == 2 {
		if c, ok := e.Args[1].constStr(); ok && c == "" {
			if l := stripChange(it.snapshot(s, e.Args[0])); l.Op == OpList {
				var out []*Expr
				for _, x := range l.Args {
					out = append(out, it.textParts(s, x)...)
				}
				return out
			}
		}
	}
	return []*Expr{e}
}

// fullText reports whether e is the text of leaf l: the trimmed patterns from
// the root down.
func (rr *routerRun) fullText(s *State, e *Expr, l *rtree) bool {
	parts := rr.it.textParts(s, e)
	var want []*Expr
	for t := l; t != nil; t = t.up {
		want = append([]*Expr{rr.was(t, rr.sh.pattern)}, want...)
	}
	if len(parts) != len(want) {
		return false
	}
	for i, x := range parts {
		if !(x.Op == OpCall && x.Name == "strings.TrimSpace" && x.Args[0] == want[i]) {
			return false
		}
	}
	return true
}

// wellFormed: the text is known to be a lone slash, or to begin with a slash
// and to end with something else.
func (it *Interp) wellFormed(s *State, u *Expr) bool {
	in := it.in
	if it.truth(s, in.eq(u, it.str("/"))) == 1 {
		return true
	}
	slash := func(x *Expr) int {
		if x.Typ == nil {
			return 0
		}
		return it.truth(s, in.eq(x, in.mk(Expr{Op: OpConst, Const: in.intc('/').Const, Typ: x.Typ})))
	}
	begin, end := false, false
	for _, x := range in.byID {
		switch {
		case x.Op == OpIndex && x.Args[0] == u:
			if d, ok := it.exact(s, x.Args[1], in.intc(0)); ok && d == 0 && slash(x) == 1 {
				begin = true
			}
			if d, ok := it.exact(s, x.Args[1], in.addc(in.lenOf(u), -1)); ok && d == 0 && slash(x) == -1 {
				end = true
			}
		case x.Op == OpCall && len(x.Args) == 2 && x.Args[0] == u:
			if c, ok := x.Args[1].constStr(); ok && c == "/" {
				if x.Name == "strings.HasPrefix" && it.truth(s, x) == 1 {
					begin = true
				}
				if x.Name == "strings.HasSuffix" && it.truth(s, x) == -1 {
					end = true
				}
			}
		}
	}
	return begin && end
}

// methodIndex is the number of the table entry of a method.
func (p *Program) methodIndex(m string) (int64, bool) {
	f := p.fn(p.water, "MethodIndex")
	if f == nil || len(f.Params) != 1 {
		return 0, false
	}
	it := newInterp(p)
	n, found := int64(0), false
	for _, e := range it.Run(f, it.initial(), []*Expr{it.str(m)}, nil) {
		if e.panic {
			continue
		}
		k, ok := e.vals[0].constInt()
		if !ok || found && k != n {
			return 0, false
		}
		n, found = k, true
	}
	return n, found
}

func c11Shape(p *Program, r *Report, sh *routerShape, use, pre string, t *rtree, conf bool) {
	rr := p.newRouterRun(t, sh, use, pre)
	it, in := rr.it, rr.it.in
	if leaves := t.leaves(); len(leaves) > 1 {
		// which of the lists are empty was explored on the chains of one leaf
		rr.setup = func(s *State) {
			t.walk(func(x *rtree) {
				if x.up == nil {
					s.facts[in.eq(in.lenOf(rr.was(x, pre)), in.intc(0))] = true
				}
				if x.method == "" {
					s.facts[in.eq(in.lenOf(rr.was(x, use)), in.intc(0))] = false
				}
			})
		}
	}
	rr.run(conf)
	rt := p.routeType()
	if rt == nil {
		r.missing("the route a node points to")
		return
	}
	var entry *types.Var // field of the node
	ns := p.role.node.Underlying().(*types.Struct)
	for i := 0; i < ns.NumFields(); i++ {
		if types.Identical(derefT2(ns.Field(i).Type()), rt) {
			entry = ns.Field(i)
		}
	}
	if entry == nil {
		r.missing("the route a node points to")
		return
	}
	n := 0
	for _, e := range rr.exits {
		if e.panic || len(e.vals) != 1 {
			continue
		}
		n++
		s := e.st
		left := builtOf(s)
		for _, l := range t.leaves() {
			var b *built
			count := 0
			for _, x := range left {
				tx := stripChange(x.pattern)
				for i := 0; i < 4 && !rr.fullText(s, tx, l); i++ {
					// rewritten as a whole
					if (tx.Op == OpRes || tx.Op == OpCall) && len(tx.Args) == 1 && isStringT(tx.Args[0].Typ) {
						tx = stripChange(tx.Args[0])
					}
				}
				if rr.fullText(s, tx, l) {
					b = x
					count++
				}
			}
			label := l.name + " of " + shapeName(t)
			r.ok("entered", label)
			if count != 1 {
				got := "nothing"
				if len(left) > 0 {
					var l []string
					for _, x := range left {
						l = append(l, names(it.textParts(s, x.pattern)))
					}
					got = strings.Join(l, "; ")
				}
				r.fail("entered", "Handler", e.pos, s, "%s is added to the route tree %d times under its own full pattern (added: %s)", label, count, got)
				continue
			}
			if got, want := rr.seq(s, b.handlers), rr.want(s, l); !sameSeq(got, want) {
				r.fail("entered", "Handler-handlers", e.pos, s, "%s is entered with the handlers %s instead of %s", label, names(got), names(want))
			}
			if it.truth(s, in.eq(in.lenOf(b.handlers), in.intc(0))) != -1 && it.truth(s, in.lss(in.intc(0), in.lenOf(b.handlers))) != 1 {
				some := false
				for _, x := range rr.want(s, l) {
					some = some || it.truth(s, in.eq(in.lenOf(x), in.intc(0))) == -1 || it.truth(s, in.lss(in.intc(0), in.lenOf(x))) == 1
				}
				if !some {
					r.fail("empty", "Handler", e.pos, s, "%s is accepted although its chain of handlers may be empty", label)
				}
			}
			// the tree is the one of the method
			idx, ok := p.methodIndex(l.method)
			if !ok {
				r.missing("MethodIndex of " + l.method)
				return
			}
			kept := false
			for c, v := range s.mem {
				if strip(v) != strip(b.tree) || it.nilness(s, v) == 1 {
					continue
				}
				root := c
				for len(root.Args) > 0 && (root.Op == OpFieldAddr || root.Op == OpIndexAddr || root.Op == OpMapCell) {
					root = root.Args[0]
				}
				if root != strip(e.vals[0]) && c.Op != OpMapCell {
					continue
				}
				switch c.Op {
				case OpIndexAddr:
					k, ok := c.Args[1].constInt()
					kept = kept || ok && k == idx
				case OpMapCell:
					k, ok := c.Args[1].constStr()
					m, ok2 := c.Args[1].constInt()
					kept = kept || ok && k == l.method || ok2 && m == idx
				}
			}
			if !kept {
				r.fail("tree", "Handler", e.pos, s, "%s is entered in a tree (%s) that is not the one the engine keeps for %s", label, b.tree, l.method)
			}
			// the node knows its route
			ro := it.load(s, it.fieldAddr(b.node, entry.Name(), pointerTo(entry.Type())), entry.Type())
			if it.nilness(s, ro) == 1 || strip(ro).Op == OpInit {
				r.fail("route", "Handler", e.pos, s, "the node of %s is not given its route", label)
				continue
			}
			okText, okMethod := false, false
			var text *Expr
			rs := rt.Underlying().(*types.Struct)
			for i := 0; i < rs.NumFields(); i++ {
				f := rs.Field(i)
				if !isStringT(f.Type()) {
					continue
				}
				v := it.load(s, it.fieldAddr(ro, f.Name(), pointerTo(f.Type())), f.Type())
				if c, ok := v.constStr(); ok && c == l.method {
					okMethod = true
				}
				if f.Name() == p.pathField() && rr.fullText(s, v, l) {
					okText, text = true, v
				}
			}
			if !okMethod || !okText {
				r.fail("route", "Handler", e.pos, s, "the node of %s is given another route: method known %v, full path known %v", label, okMethod, okText)
				continue
			}
			if !it.wellFormed(s, stripChange(text)) {
				r.fail("malformed", "Handler", e.pos, s, "%s is accepted although its full path may not begin with a slash, or end with one", label)
			}
		}
		if len(left) > len(t.leaves()) {
			r.fail("entered", "Handler-extra", e.pos, s, "%d routes are added to the route tree for %d registered in %s", len(left), len(t.leaves()), shapeName(t))
		}
	}
	if n == 0 {
		r.missing("normal end of Handler for " + shapeName(t))
	}
	r.absorb(it, "Handler"+shapeName(t))
}

// fieldFor is the only field of st of type t or pointer to t.
func fieldFor(st types.Type, t types.Type) *types.Var {
	s, ok := st.Underlying().(*types.Struct)
	if !ok || t == nil {
		return nil
	}
	for i := 0; i < s.NumFields(); i++ {
		if types.Identical(derefT2(s.Field(i).Type()), t) {
			return s.Field(i)
		}
	}
	return nil
}

// pathField is the field of a route the context reports as the full path.
func (p *Program) pathField() string {
	if p.pathF == "" {
		p.pathF = c11FullPath(p, newReport(p, "C11"))
		if p.pathF == "" {
			p.pathF = "uri"
		}
	}
	return p.pathF
}

// c11FullPath checks that a context reports the text kept with the route of
// the node it matched, and nothing when no node was matched. The result is the
// field that text is kept in.
func c11FullPath(p *Program, r *Report) string {
	f := p.method(p.water, "Context", "FullPath")
	rt := p.routeType()
	if f == nil || rt == nil {
		r.missing("method FullPath of Context")
		return ""
	}
	nf, ef := fieldFor(p.role.ctx, p.role.node), fieldFor(p.role.node, rt)
	if nf == nil || ef == nil {
		r.missing("the node a context keeps and its route")
		return ""
	}
	it := newInterp(p)
	st := it.initial()
	args := it.Params(f)
	st.facts[it.in.eq(args[0], it.in.zero(args[0].Typ))] = false
	field := ""
	n := 0
	for _, e := range it.startWith(f, st, args) {
		if e.panic {
			continue
		}
		n++
		r.ok("reported", "FullPath "+p.pos(e.pos)+itoa(len(e.st.facts)))
		v := stripChange(e.vals[0])
		node := it.load(e.st, it.fieldAddr(args[0], nf.Name(), pointerTo(nf.Type())), nf.Type())
		if c, ok := v.constStr(); ok {
			if c != "" {
				r.fail("reported", "FullPath", e.pos, e.st, "FullPath reports the constant %q", c)
			} else if it.nilness(e.st, node) != 1 {
				// a node without a route is none that was matched
				ro := it.load(e.st, it.fieldAddr(node, ef.Name(), pointerTo(ef.Type())), ef.Type())
				if it.nilness(e.st, ro) != 1 {
					r.fail("reported", "FullPath", e.pos, e.st, "FullPath reports nothing although a route may have been matched")
				}
			}
			continue
		}
		ok := v.Op == OpInit && v.Args[0].Op == OpFieldAddr && types.Identical(derefT(v.Args[0].Args[0].Typ), rt)
		if ok {
			ro := strip(v.Args[0].Args[0])
			ok = ro == strip(it.load(e.st, it.fieldAddr(node, ef.Name(), pointerTo(ef.Type())), ef.Type())) && (field == "" || field == v.Args[0].Name)
			if ok {
				field = v.Args[0].Name
			}
		}
		if !ok {
			r.fail("reported", "FullPath", e.pos, e.st, "FullPath reports %s, which is not the text kept with the route of the matched node", v)
		} else if it.nilness(e.st, node) == 1 {
			r.fail("reported", "FullPath", e.pos, e.st, "FullPath looks at the route of no node")
		}
	}
	if n == 0 || field == "" {
		r.missing("result of FullPath")
	}
	r.absorb(it, "FullPath")
	return field
}

// adder is the analysis of one function that adds a route below a node.
type adder struct {
	*matcher
	handlers *Expr
	pos      map[string]int
}

// c11Tree checks the functions that add a route to a tree.
func c11Tree(p *Program, r *Report) {
	it := newInterp(p)
	it.startWith(p.role.add, it.initial(), it.Params(p.role.add))
	isG := map[*ssa.Function]bool{}
	var gs []*ssa.Function
	for g := range it.cut {
		if g.Signature.Results().Len() == 1 && types.Identical(derefT(g.Signature.Results().At(0).Type()), p.role.node) {
			gs = append(gs, g)
			isG[g] = true
		}
	}
	sort.Slice(gs, func(i, j int) bool { return gs[i].String() < gs[j].String() })
	if len(gs) == 0 {
		r.missing("recursive functions below add")
		return
	}
	for _, g := range gs {
		a := &adder{matcher: &matcher{p: p, r: r, prop: "C11", g: g}}
		if x := a.nodeShape(); x != "" {
			r.missing(x)
			return
		}
		a.run(isG)
	}
	c11Top(p, r, isG)
	c11New(p, r)
}

// makesNode reports whether f makes nodes without adding them to a tree.
func (p *Program) makesNode(f *ssa.Function) bool {
	if p.makers == nil {
		p.makers = map[*ssa.Function]bool{}
	}
	v, ok := p.makers[f]
	if !ok {
		v = p.makesNode1(f)
		p.makers[f] = v
	}
	return v
}

// keepsNode reports whether f stores a node, or a list of nodes, anywhere but
// in something it made itself.
func keepsNode(p *Program, f *ssa.Function) bool {
	isNode := func(t types.Type) bool {
		return isNodeList(p, t) || types.Identical(derefT2(t), p.role.node)
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Store:
				if !isNode(x.Val.Type()) {
					continue
				}
				a := x.Addr
				for {
					if y, ok := a.(*ssa.FieldAddr); ok {
						a = y.X
						continue
					}
					if y, ok := a.(*ssa.IndexAddr); ok {
						a = y.X
						continue
					}
					break
				}
				if _, ok := a.(*ssa.Alloc); !ok {
					return true
				}
			case *ssa.MapUpdate:
				if isNode(x.Value.Type()) {
					return true
				}
			}
		}
	}
	return false
}

func (p *Program) makesNode1(f *ssa.Function) bool {
	rs := f.Signature.Results()
	return rs.Len() == 1 && types.Identical(derefT(rs.At(0).Type()), p.role.node) && !p.fnReaches(f, map[*ssa.Function]bool{}, func(g *ssa.Function) bool { return keepsNode(p, g) }) && p.fnReaches(f, map[*ssa.Function]bool{}, func(g *ssa.Function) bool {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if a, ok := in.(*ssa.Alloc); ok && types.Identical(derefT(a.Type()), p.role.node) {
					return true
				}
			}
		}
		return false
	})
}

func (a *adder) run(isG map[*ssa.Function]bool) {
	p := a.p
	it := newInterp(p)
	a.it = it
	in := it.in
	st := it.initial()
	args := it.Params(a.g)
	a.pos = map[string]int{}
	for i, x := range args {
		switch t := x.Typ.Underlying().(type) {
		case *types.Pointer:
			if types.Identical(t.Elem(), p.role.node) {
				a.n, a.pos["n"] = x, i
				st.facts[in.eq(x, in.zero(x.Typ))] = false
			}
		case *types.Slice:
			a.handlers, a.pos["h"] = x, i
		case *types.Basic:
			if t.Info()&types.IsString != 0 {
				if _, dup := a.pos["u"]; dup {
					a.r.missing("the one text parameter of " + p.fnName(a.g))
					return
				}
				a.u, a.pos["u"] = x, i
			}
		}
	}
	if a.n == nil || a.u == nil || a.handlers == nil {
		a.r.missing("node, text and handlers of " + p.fnName(a.g))
		return
	}
	text := a.u
	it.hooks.Opaque = func(f *ssa.Function, ev *CallEv) bool { return f == a.g || p.makesNode(f) }
	it.hooks.Override = func(s *State, ev *CallEv) (*Expr, bool) {
		if ev.Kind == "defer-stmt" || ev.Fn == nil {
			return nil, false
		}
		if ev.Fn == a.g {
			return it.fresh(s, ev.Fr, ev.Instr, "res", Expr{Op: OpRes, Name: "added", Args: []*Expr{ev.Args[a.pos["n"]], ev.Args[a.pos["u"]], ev.Args[a.pos["h"]]}, Typ: pointerTo(p.role.node)}), true
		}
		if p.makesNode(ev.Fn) {
			res := it.fresh(s, ev.Fr, ev.Instr, "new", Expr{Op: OpRes, Name: "node", Args: ev.Args, Typ: pointerTo(p.role.node)})
			s.facts[in.eq(res, in.zero(res.Typ))] = false
			return res, true
		}
		return nil, false
	}
	// nodes of the lists are never nil
	it.hooks.Deref = func(s *State, fr *Frame, ptr *Expr, instr ssa.Instruction) {
		if l, _ := a.inList(s, ptr); l != "" {
			s.facts[in.eq(ptr, in.zero(ptr.Typ))] = false
		}
	}
	// every node of the list is known to be another
	allDiffer := func(s *State, list string) bool {
		old := in.mk(Expr{Op: OpInit, Args: []*Expr{it.fieldAddr(a.n, list, a.listPtr(list))}, Typ: a.listType(list)})
		n := in.lenOf(old)
		if s.auto["differ:"+list] != "" || it.truth(s, in.eq(n, in.intc(0))) == 1 {
			return true
		}
		for k, g := range s.ghost {
			if strings.HasPrefix(k, "differ:") && strings.HasSuffix(k, ":"+list) && it.truth(s, in.lss(g, n)) == -1 {
				return true
			}
		}
		return false
	}
	it.hooks.Arrive = func(s *State, fr *Frame, blk *ssa.BasicBlock, back bool) {
		key := "differ:" + itoa(fr.id) + ":" + itoa(blk.Index)
		for _, l := range a.nodeLists() {
			if !back && allDiffer(s, l) {
				s.auto["differ:"+l] = "all" // outlives the loop that found it out
			}
			k := key + ":" + l
			if !back {
				s.ghost[k] = in.intc(0)
				continue
			}
			g := s.ghost[k]
			if g == nil {
				continue
			}
			for _, x := range in.byID {
				if x.Op != OpInit || x.Args[0].Op != OpIndexAddr || !types.Identical(derefT(x.Typ), p.role.node) {
					continue
				}
				list, i := a.inList(s, x)
				if list != l {
					continue
				}
				if d, ok := it.exact(s, i, g); ok && d == 0 && a.differs(s, x) {
					s.ghost[k] = in.addc(i, 1)
					break
				}
			}
		}
	}
	var put func(s *State, addr, val *Expr)
	put = func(s *State, addr, val *Expr) {
		// a new node entered in a list of the node
		list := ""
		for c := addr; ; c = c.Args[0] {
			if c.Op == OpFieldAddr && c.Args[0] == a.n {
				list = c.Name
				break
			}
			if c.Op == OpIndexAddr {
				b := stripChange(c.Args[0])
				for b.Op == OpAppend || b.Op == OpSlice {
					b = stripChange(b.Args[0])
				}
				if b.Op == OpInit && b.Args[0].Op == OpFieldAddr && b.Args[0].Args[0] == a.n {
					list = b.Args[0].Name
				}
				break
			}
			if len(c.Args) == 0 || c.Op != OpFieldAddr {
				break
			}
		}
		if list == "" {
			return
		}
		in.walk(val, func(x *Expr) bool {
			if a.isNew(x) {
				s.auto["in:"+itoa(x.ID)] = list
			}
			return x.Op != OpInit
		})
	}
	it.hooks.Store = func(s *State, fr *Frame, addr, val *Expr, instr ssa.Instruction) {
		put(s, addr, it.snapshot(s, val))
		if addr.Op == OpFieldAddr && types.Identical(derefT(addr.Args[0].Typ), p.role.node) && !a.isNew(addr.Args[0]) && addr.Args[0].Op != OpAlloc && !isNodeList(p, derefT(addr.Typ)) {
			a.r.fail("alter", p.fnName(a.g)+"-"+addr.Name, instrPos(instr), s, "%s of a node that is already in the tree is changed: an earlier route loses it", addr.Name)
		}
	}
	name := p.fnName(a.g)
	bad := func(rule string, e exit, format string, args ...any) {
		a.r.fail(rule, name, e.pos, e.st, format, args...)
	}
	for _, e := range it.startWith(a.g, st, args) {
		if e.panic || len(e.vals) != 1 {
			continue
		}
		s := e.st
		a.u = a.cutText(text)
		v := strip(e.vals[0])
		rec := v.Op == OpRes && v.Name == "added"
		x := v
		if rec {
			a.r.ok("descend", p.pos(e.pos)+v.String())
			x = strip(v.Args[0])
			if v.Args[2] != a.handlers {
				bad("handlers", e, "the handlers handed on are %s instead of those given", v.Args[2])
			}
			if !a.isRest(v.Args[1]) {
				bad("rest", e, "the route continues below the node with %s, which is not what follows the first segment", v.Args[1])
			}
			if l, _ := a.inList(s, x); l != "" {
				if !a.equals(s, x) {
					bad("descend", e, "the route is put below an existing node that may stand for another segment")
				}
				continue
			}
		} else {
			a.r.ok("end", p.pos(e.pos)+v.String())
		}
		if !a.isNew(x) {
			bad("node", e, "the route is given the node %s, which is neither new nor the one of its segment: the handlers of another route are replaced or shared", x)
			continue
		}
		list := s.auto["in:"+itoa(x.ID)]
		if list == "" {
			bad("lost", e, "a new node is made for the route but not entered in the tree")
			continue
		}
		if !a.ofSegment(s, x) {
			bad("segment", e, "the new node %s is not made for the segment of the route", x)
		}
		if !rec {
			h := a.fieldOfType(s, x, a.handlers.Typ)
			if h != a.handlers {
				bad("handlers", e, "the new node has the handlers %s instead of those given", h)
			}
			if a.lastSegment(s) != 1 {
				bad("end", e, "the route ends here although more segments may follow")
			}
		}
		// every node of the list is known to be another
		if !allDiffer(s, list) {
			bad("collision", e, "a new node is entered in %s although an equal one may be there already: the later route would be lost without a panic", list)
		}
	}
	a.r.absorb(it, name)
}

func (a *adder) nodeLists() []string {
	var out []string
	st := a.p.role.node.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if isNodeList(a.p, st.Field(i).Type()) {
			out = append(out, st.Field(i).Name())
		}
	}
	return out
}

func (a *adder) listType(name string) types.Type {
	st := a.p.role.node.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return st.Field(i).Type()
		}
	}
	return nil
}

func (a *adder) listPtr(name string) types.Type { return pointerTo(a.listType(name)) }

// fieldOfType is the only field of x with type t.
func (a *adder) fieldOfType(s *State, x *Expr, t types.Type) *Expr {
	st := a.p.role.node.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if types.Identical(st.Field(i).Type(), t) {
			return a.fld(s, x, st.Field(i).Name())
		}
	}
	return nil
}

func (a *adder) isNew(x *Expr) bool {
	return x.Op == OpRes && x.Name == "node"
}

// cutText is the text the segments are cut from: the parameter, or what is
// left of it without leading slashes.
func (a *adder) cutText(u *Expr) *Expr {
	for _, x := range a.it.in.byID {
		if x.Op != OpCall || len(x.Args) < 2 {
			continue
		}
		switch x.Name {
		case "strings.Index", "strings.IndexByte", "strings.IndexRune", "strings.Cut", "strings.Contains":
			b := x.Args[0]
			for b != u && b.Op == OpCall && (b.Name == "strings.TrimPrefix" || b.Name == "strings.TrimLeft") {
				if c, ok := b.Args[1].constStr(); !ok || c != "/" {
					break
				}
				b = b.Args[0]
			}
			if b == u {
				return x.Args[0]
			}
		}
	}
	return u
}

// ofSegment reports whether new node x was made for the segment at hand.
func (a *adder) ofSegment(s *State, x *Expr) bool {
	for _, y := range x.Args {
		if isStringT(y.Typ) {
			return a.isSeg(s, y)
		}
	}
	return false
}

// fresh nodes made so far
func (a *adder) fresh() []*Expr {
	var out []*Expr
	for _, x := range a.it.in.byID {
		if a.isNew(x) {
			out = append(out, x)
		}
	}
	return out
}

// regText is the comparison of the expressions of two nodes.
func (a *adder) regText(s *State, x, y *Expr) int {
	in := a.it.in
	str := func(n *Expr) []*Expr {
		r := a.fld(s, n, a.reg)
		var out []*Expr
		for _, e := range in.byID {
			if e.Op == OpCall && e.Name == "(*regexp.Regexp).String" && e.Args[0] == r {
				out = append(out, e)
			}
		}
		return out
	}
	for _, p := range str(x) {
		for _, q := range str(y) {
			if t := a.it.truth(s, in.eq(p, q)); t != 0 {
				return t
			}
		}
	}
	return 0
}

// differs proves that existing node x stands for another segment than the one
// at hand.
func (a *adder) differs(s *State, x *Expr) bool {
	it, in := a.it, a.it.in
	for _, y := range a.fresh() {
		kx, ky := a.fld(s, x, a.kind), a.fld(s, y, a.kind)
		if it.truth(s, in.eq(kx, ky)) == -1 {
			return true
		}
		if it.truth(s, in.eq(a.fld(s, x, a.key), a.fld(s, y, a.key))) == -1 {
			return true
		}
		if a.regText(s, x, y) == -1 {
			return true
		}
		if onlyKind(a.kinds(s, x), kStatic) || onlyKind(a.kinds(s, y), kStatic) {
			if it.truth(s, in.eq(a.fld(s, x, a.pat), a.fld(s, y, a.pat))) == -1 {
				return true
			}
			for _, z := range y.Args {
				if isStringT(z.Typ) && it.truth(s, in.eq(a.fld(s, x, a.pat), z)) == -1 {
					return true
				}
			}
		}
	}
	return false
}

// equals proves that existing node x stands for the segment at hand.
func (a *adder) equals(s *State, x *Expr) bool {
	it, in := a.it, a.it.in
	px := a.fld(s, x, a.pat)
	for _, y := range in.byID {
		if isStringT(y.Typ) && y != px && it.truth(s, in.eq(px, y)) == 1 && a.isSeg(s, y) {
			return true
		}
	}
	for _, y := range a.fresh() {
		if !a.ofSegment(s, y) {
			continue
		}
		if it.truth(s, in.eq(px, a.fld(s, y, a.pat))) == 1 {
			return true
		}
		if it.truth(s, in.eq(a.fld(s, x, a.kind), a.fld(s, y, a.kind))) != 1 || it.truth(s, in.eq(a.fld(s, x, a.key), a.fld(s, y, a.key))) != 1 {
			continue
		}
		noReg := it.nilness(s, a.fld(s, x, a.reg)) == 1 || it.nilness(s, a.fld(s, y, a.reg)) == 1
		if ks := a.kinds(s, x); !has(ks, kRegexp) {
			noReg = true
		}
		if ks := a.kinds(s, y); !has(ks, kRegexp) {
			noReg = true
		}
		if noReg || a.regText(s, x, y) == 1 {
			return true
		}
	}
	return false
}

// c11Top checks what add itself hands to the recursive functions.
func c11Top(p *Program, r *Report, isG map[*ssa.Function]bool) {
	if isG[p.role.add] {
		return
	}
	it := newInterp(p)
	st := it.initial()
	args := it.Params(p.role.add)
	var node, text, hs *Expr
	for _, a := range args {
		switch {
		case isStringT(a.Typ):
			text = a
		case types.Identical(derefT2(a.Typ), p.role.node):
			node = a
		default:
			hs = a
		}
	}
	it.hooks.Opaque = func(f *ssa.Function, ev *CallEv) bool { return isG[f] }
	it.hooks.Override = func(s *State, ev *CallEv) (*Expr, bool) {
		if ev.Fn == nil || !isG[ev.Fn] {
			return nil, false
		}
		return it.fresh(s, ev.Fr, ev.Instr, "res", Expr{Op: OpRes, Name: "added", Args: ev.Args, Typ: pointerTo(p.role.node)}), true
	}
	name := p.fnName(p.role.add)
	for _, e := range it.startWith(p.role.add, st, args) {
		if e.panic || len(e.vals) != 1 {
			continue
		}
		r.ok("end", name)
		v := strip(e.vals[0])
		if v.Op != OpRes || v.Name != "added" {
			r.fail("node", name, e.pos, e.st, "add returns %s, not the node the route was added as", v)
			continue
		}
		gotH, gotN, gotT := false, false, false
		for _, a := range v.Args {
			if a == hs {
				gotH = true
			}
			if a == node {
				gotN = true
			}
			if isStringT(a.Typ) {
				for a != text && a.Op == OpCall && (strings.HasPrefix(a.Name, "strings.Trim")) {
					if len(a.Args) == 2 {
						if c, ok := a.Args[1].constStr(); !ok || c != "/" {
							break
						}
					}
					a = a.Args[0]
				}
				gotT = a == text
			}
		}
		if !gotH || !gotN || !gotT {
			r.fail("node", name, e.pos, e.st, "add hands on %s instead of its own node, pattern (without outer slashes) and handlers", names(v.Args))
		}
	}
	r.absorb(it, name)
}

// c11New checks that nodes keep the names of a segment in one spelling.
func c11New(p *Program, r *Report) {
	m := &matcher{p: p, r: r, prop: "C11"}
	if x := m.nodeShape(); x != "" {
		r.missing(x)
		return
	}
	n := 0
	for _, f := range p.Funcs() {
		if !p.makesNode(f) || f.Pkg != p.water {
			continue
		}
		text := -1
		for i, x := range f.Params {
			if isStringT(x.Type()) {
				text = i
			}
		}
		if text < 0 {
			continue
		}
		n++
		name := p.fnName(f)
		for k := 1; k <= 3; k++ {
			it := newInterp(p)
			in := it.in
			m.it = it
			args := it.Params(f)
			pat := args[text]
			var raw []*Expr
			for i := 0; i < k; i++ {
				raw = append(raw, it.param("name"+itoa(i), types.Typ[types.String]))
			}
			it.hooks.Override = func(s *State, ev *CallEv) (*Expr, bool) {
				if ev.Name == "strings.Split" || ev.Name == "strings.SplitN" {
					return in.mk(Expr{Op: OpList, Args: raw, Typ: types.NewSlice(types.Typ[types.String])}), true
				}
				return nil, false
			}
			for _, e := range it.startWith(f, it.initial(), args) {
				if e.panic || len(e.vals) != 1 || it.contradicts(e.st, pat) {
					continue
				}
				s := e.st
				x := strip(e.vals[0])
				key := stripChange(m.fld(s, x, m.key))
				ks := m.kinds(s, x)
				if v := m.fld(s, x, m.pat); v != pat {
					r.fail("canonical", name+"-pattern", e.pos, s, "the node made for %s keeps the pattern %s", pat, v)
				}
				for _, kind := range ks {
					r.ok("canonical", name+itoa(kind)+itoa(k))
					good := false
					switch kind {
					case kStatic:
						good = key == pat
					case kAll:
						good = key.Op == OpCall && strings.HasPrefix(key.Name, "strings.Trim") || key.Op == OpSlice
					case kHolder:
						good = isTrimmed(key)
					case kRegexp:
						w := stripChange(it.snapshot(s, m.fld(s, x, m.wild)))
						good = w.Op == OpList && len(w.Args) == k
						for i := 0; good && i < k; i++ {
							good = w.Args[i].Op == OpCall && w.Args[i].Name == "strings.TrimSpace" && w.Args[i].Args[0] == raw[i]
						}
						if good {
							good = joined(it, s, key, w.Args)
						}
					}
					if !good {
						r.fail("canonical", name+"-"+itoa(kind), e.pos, s, "the name by which a node of kind %d is compared is %s: equivalent spellings give different names", kind, key)
					}
				}
			}
			r.absorb(it, name)
		}
	}
	if n == 0 {
		r.missing("constructor of tree nodes")
	}
}

// contradicts reports whether what s knows about the characters of text u
// cannot all be true.
func (it *Interp) contradicts(s *State, u *Expr) bool {
	in := it.in
	yes, no := map[string]bool{}, map[string]bool{} // texts u contains, or does not
	for _, x := range in.byID {
		if (x.Op != OpCall && x.Op != OpRes) || len(x.Args) != 2 || x.Args[0] != u {
			continue
		}
		c, ok := x.Args[1].constStr()
		if !ok {
			if k, ok := x.Args[1].constInt(); ok {
				c = string(rune(k))
			} else {
				continue
			}
		}
		t := 0
		switch x.Name {
		case "strings.Contains", "strings.ContainsRune":
			t = it.truth(s, x)
		case "strings.HasPrefix", "strings.HasSuffix":
			if it.truth(s, x) == 1 {
				t = 1
			}
		case "strings.Index", "strings.LastIndex", "strings.IndexByte", "strings.LastIndexByte", "strings.IndexRune":
			t = -it.truth(s, in.lss(x, in.intc(0)))
			if it.truth(s, in.eq(x, in.intc(-1))) == 1 {
				t = -1
			} else if it.truth(s, in.eq(x, in.intc(-1))) == -1 {
				t = 1
			}
			for k := int64(0); k < 2; k++ {
				if it.truth(s, in.eq(x, in.intc(k))) == 1 {
					t = 1
				}
			}
		case "strings.ContainsAny", "strings.IndexAny":
			y := x
			if x.Name == "strings.IndexAny" {
				y = in.lss(in.intc(-1), x)
			}
			if it.truth(s, y) == -1 {
				for _, ch := range c {
					no[string(ch)] = true
				}
			}
			continue
		default:
			continue
		}
		if t == 1 {
			yes[c] = true
		} else if t == -1 {
			no[c] = true
		}
	}
	for c := range yes {
		for d := range no {
			if strings.Contains(c, d) {
				return true
			}
		}
	}
	return false
}

func isTrimmed(e *Expr) bool { return e.Op == OpCall && e.Name == "strings.TrimSpace" }

// joined reports whether e is the names in order with a constant between.
func joined(it *Interp, s *State, e *Expr, l []*Expr) bool {
	if e.Op == OpCall && e.Name == "strings.Join" {
		if _, ok := e.Args[1].constStr(); ok {
			if x := stripChange(it.snapshot(s, e.Args[0])); x.Op == OpList && sameSeq(x.Args, l) {
				return true
			}
		}
	}
	var got []*Expr
	for _, x := range it.textParts(s, e) {
		if _, ok := x.constStr(); !ok {
			got = append(got, x)
		}
	}
	return sameSeq(got, l)
}

// c11Handler checks the conversion of one registered value.
func c11Handler(p *Program, r *Report) {
	var httpPkg *types.Package
	for _, pk := range p.prog.AllPackages() {
		if pk.Pkg.Path() == "net/http" {
			httpPkg = pk.Pkg
		}
	}
	if httpPkg == nil {
		r.missing("net/http")
		return
	}
	named := func(n string) types.Type { return httpPkg.Scope().Lookup(n).Type() }
	fn := func(ps ...types.Type) types.Type {
		var vs []*types.Var
		for _, t := range ps {
			vs = append(vs, types.NewVar(token.NoPos, nil, "", t))
		}
		return types.NewSignatureType(nil, nil, nil, types.NewTuple(vs...), nil, false)
	}
	ctxT := types.Type(types.NewPointer(p.role.ctx))
	good := map[string]types.Type{
		"func(*Context)":    fn(ctxT),
		"func(http)":        fn(named("ResponseWriter"), types.NewPointer(named("Request"))),
		"http.HandlerFunc":  named("HandlerFunc"),
		"water.HandlerFunc": p.named(p.water, "HandlerFunc"),
	}
	bad := map[string]types.Type{
		"int": types.Typ[types.Int], "string": types.Typ[types.String], "func()": fn(), "func(int)": fn(types.Typ[types.Int]),
		"*Context": ctxT, "func(*Router)": fn(types.NewPointer(p.role.router)),
	}
	n := 0
	for _, f := range p.Funcs() {
		if !p.conv1(f) {
			continue
		}
		n++
		name := p.fnName(f)
		run := func(arg *Expr, st func(it *Interp, s *State), it *Interp, label string, want bool, x *Expr) {
			// a value may be converted by way of another form
			it.hooks.Follow = func(ev *CallEv) bool { return p.conv1(ev.Fn) }
			s0 := it.initial()
			if st != nil {
				st(it, s0)
			}
			normal := 0
			for _, e := range it.Run(f, s0, []*Expr{arg}, nil) {
				if e.panic {
					if want {
						r.fail("handler", name+"-"+label, e.pos, e.st, "%s may reject a %s", name, label)
					}
					continue
				}
				normal++
				if !want {
					r.fail("handler", name+"-"+label, e.pos, e.st, "%s accepts %s as a handler and returns %s", name, label, e.vals[0])
					continue
				}
				c11Serves(p, r, it, name, label, e, x)
			}
			r.ok("handler", name+label)
			if want && normal == 0 {
				r.fail("handler", name+"-"+label, f.Pos(), nil, "%s never accepts a %s", name, label)
			}
			r.absorb(it, name)
		}
		it := newInterp(p)
		el := f.Params[0].Type()
		run(it.in.zero(el), nil, it, "nil", false, nil)
		for _, l := range sortedKeys(bad) {
			it := newInterp(p)
			x := it.param("value", bad[l])
			run(it.in.mk(Expr{Op: OpIface, Args: []*Expr{x}, Typ: el}), nil, it, l, false, nil)
		}
		for _, l := range sortedKeys(good) {
			if good[l] == nil {
				continue
			}
			for _, null := range []bool{true, false} {
				it := newInterp(p)
				x := it.param("handler", good[l])
				label := l
				if null {
					label = "nil " + l
				}
				run(it.in.mk(Expr{Op: OpIface, Args: []*Expr{x}, Typ: el}), func(it *Interp, s *State) {
					s.facts[it.in.eq(x, it.in.zero(x.Typ))] = null
				}, it, label, !null, x)
			}
		}
	}
	if n == 0 {
		r.missing("conversion of one handler")
	}
}

// c11Serves checks that what a handler was converted into calls it once.
func c11Serves(p *Program, r *Report, it *Interp, name, label string, e exit, x *Expr) {
	in := it.in
	v := strip(e.vals[0])
	ctx := it.param("context", types.NewPointer(p.role.ctx))
	s := e.st
	s.facts[in.eq(ctx, in.zero(ctx.Typ))] = false
	it.hooks.Call = func(s *State, ev *CallEv) {
		called := ev.Callee != nil && strip(ev.Callee) == x
		for i, a := range ev.Args {
			if i == 0 && strip(a) == x && ev.Method == "ServeHTTP" {
				called = true
			}
		}
		if called {
			s.auto["served"] += "x"
			hit := false
			for _, a := range ev.Args {
				if a = strip(a); a == ctx {
					hit = true
				} else if t, ok := a.Typ.Underlying().(*types.Pointer); ok && a != x && typeKey(t.Elem()) == "net/http.Request" {
					if a.Op != OpInit || a.Args[0].Op != OpFieldAddr || a.Args[0].Args[0] != ctx {
						r.fail("serves", name+"-"+label, ev.Pos, s, "a %s is called with %s, which is not the request being served", label, a)
					}
				}
			}
			if hit {
				return
			}
			r.fail("serves", name+"-"+label, ev.Pos, s, "a %s is called without the context of the request", label)
		}
	}
	s.auto["served"] = ""
	// the method its type has, as far as the type is the package's own
	w := stripIface(e.vals[0])
	if w.Op == OpIface {
		w = w.Args[0]
	}
	m := p.prog.MethodSets.MethodSet(w.Typ).Lookup(p.water.Pkg, "ServeHTTP")
	var mf *ssa.Function
	if m != nil && !types.IsInterface(w.Typ) {
		mf = p.prog.MethodValue(m)
	}
	if mf == nil || len(mf.Blocks) == 0 || !p.inModule(mf) {
		r.fail("serves", name+"-"+label, e.pos, e.st, "a %s becomes %s, which is not known to call it", label, v)
		return
	}
	exits := it.Run(mf, s, []*Expr{w, ctx}, nil)
	for _, e2 := range exits {
		if !e2.panic && e2.st.auto["served"] != "x" {
			r.fail("serves", name+"-"+label, e2.pos, e2.st, "a %s is called %d times when its route is served", label, len(e2.st.auto["served"]))
		}
	}
}

// c11RootOnly checks the operations that are only for the root.
func c11RootOnly(p *Program, r *Report, sh *routerShape) {
	for _, name := range []string{"Before", "Handler", "Classic", "StaticAdvance", "StaticFile", "Static"} {
		fn := p.method(p.water, "Router", name)
		if fn == nil {
			r.missing("Router." + name)
			continue
		}
		rr, exits := p.runReg(fn, func(rr *regRun, st *State) {
			rr.it.max = 100000
			for _, f := range p.routerFields() {
				if f.Name() == sh.parent {
					v := rr.it.param("parent", f.Type())
					st.mem[rr.it.fieldAddr(rr.args[0], sh.parent, pointerTo(f.Type()))] = v
					st.facts[rr.it.in.eq(v, rr.it.in.zero(v.Typ))] = false
				}
			}
		})
		r.ok("root-only", name)
		for _, e := range exits {
			r.fail("root-only", name, e.pos, e.st, "%s is accepted on a router that is not the root", name)
		}
		r.absorb(rr.it, name)
	}
}
