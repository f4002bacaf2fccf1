package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C30", "Effect analysis of construction: over every function reachable from an exported function or method that builds or configures routers, engines, options and middleware, an interprocedural, flow-insensitive points-to analysis computes which values may refer into package variables; "+
		"no store, map update, append, copy, clear, delete or outside call may write through such a value. Explicit setters are not entry points, but calling one during construction counts as the write it does.",
		map[string]int{"root": 15, "function": 30, "write": 20}, c30)
}

type globSet map[*ssa.Global]bool

// globFlow records, per value, the package variables it may refer into (pts)
// and those that the memory it refers to may refer into (cont).
type globFlow struct {
	p     *Program
	pts   map[interface{}]globSet
	cont  map[interface{}]globSet
	dirty bool
}

func (g *globFlow) add(m map[interface{}]globSet, k interface{}, s globSet) {
	if len(s) == 0 {
		return
	}
	d := m[k]
	if d == nil {
		d = globSet{}
		m[k] = d
	}
	for x := range s {
		if !d[x] {
			d[x] = true
			g.dirty = true
		}
	}
}

func (g *globFlow) flow(to, from interface{}) {
	g.add(g.pts, to, g.pts[from])
	g.add(g.cont, to, g.cont[from])
}

// hasRef reports whether a value of type t can refer to memory that can be written.
func hasRef(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Map, *types.Interface, *types.Signature, *types.Chan:
		return true
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if hasRef(u.Field(i).Type()) {
				return true
			}
		}
	case *types.Array:
		return hasRef(u.Elem())
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			if hasRef(u.At(i).Type()) {
				return true
			}
		}
	}
	return false
}

type resKey struct {
	f *ssa.Function
	i int
}

type fldKey struct {
	t string
	i int
}

func fieldKey(x ssa.Value, i int) fldKey {
	t := x.Type()
	if d := derefT(t); d != nil {
		t = d
	}
	return fldKey{t.String(), i}
}

func (g *globFlow) step(f *ssa.Function) {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.UnOp:
				if in.Op == token.MUL && hasRef(in.Type()) {
					g.add(g.pts, in, g.pts[in.X])
					g.add(g.pts, in, g.cont[in.X])
					g.add(g.cont, in, g.cont[in.X])
				}
			case *ssa.FieldAddr:
				g.flow(in, in.X)
				g.add(g.cont, in, g.cont[fieldKey(in.X, in.Field)])
			case *ssa.Field:
				if hasRef(in.Type()) {
					g.flow(in, in.X)
					g.add(g.pts, in, g.cont[fieldKey(in.X, in.Field)])
				}
			case *ssa.IndexAddr:
				g.flow(in, in.X)
			case *ssa.Index:
				if hasRef(in.Type()) {
					g.flow(in, in.X)
					g.add(g.pts, in, g.cont[in.X])
				}
			case *ssa.Lookup:
				if hasRef(in.Type()) {
					g.flow(in, in.X)
					g.add(g.pts, in, g.cont[in.X])
				}
			case *ssa.Next:
				g.flow(in, in.Iter)
				g.add(g.pts, in, g.cont[in.Iter])
			case *ssa.Range:
				g.flow(in, in.X)
			case *ssa.Extract:
				if hasRef(in.Type()) {
					g.flow(in, in.Tuple)
				}
				if c, ok := in.Tuple.(*ssa.Call); ok {
					if h := c.Call.StaticCallee(); h != nil {
						g.flow(in, resKey{h, in.Index})
					}
				}
			case *ssa.Slice:
				g.flow(in, in.X)
			case *ssa.ChangeType:
				g.flow(in, in.X)
			case *ssa.Convert:
				if hasRef(in.Type()) && hasRef(in.X.Type()) {
					g.flow(in, in.X)
				}
			case *ssa.ChangeInterface:
				g.flow(in, in.X)
			case *ssa.MakeInterface:
				if hasRef(in.X.Type()) {
					g.flow(in, in.X)
				}
			case *ssa.TypeAssert:
				g.flow(in, in.X)
			case *ssa.Phi:
				for _, e := range in.Edges {
					g.flow(in, e)
				}
			case *ssa.Store:
				if hasRef(in.Val.Type()) {
					g.hold(in.Addr, in.Val)
				}
			case *ssa.MapUpdate:
				g.hold(in.Map, in.Value)
				g.hold(in.Map, in.Key)
			case *ssa.MakeClosure:
				h := in.Fn.(*ssa.Function)
				for i, b := range in.Bindings {
					g.flow(h.FreeVars[i], b)
				}
			case *ssa.Return:
				for i, v := range in.Results {
					g.flow(resKey{f, i}, v)
				}
			}
			if c, ok := in.(ssa.CallInstruction); ok {
				com := c.Common()
				if bi, ok := com.Value.(*ssa.Builtin); ok && bi.Name() == "append" {
					v := c.Value()
					if !capped(com.Args[0]) {
						g.add(g.pts, v, g.pts[com.Args[0]])
					}
					g.add(g.cont, v, g.cont[com.Args[0]])
					g.add(g.cont, v, g.cont[com.Args[1]])
					if sl, ok := com.Args[1].Type().Underlying().(*types.Slice); ok && hasRef(sl.Elem()) {
						g.add(g.cont, v, g.pts[com.Args[1]])
					}
					if sl, ok := com.Args[0].Type().Underlying().(*types.Slice); ok && hasRef(sl.Elem()) {
						g.add(g.cont, v, g.pts[com.Args[0]])
					}
				}
				if h := com.StaticCallee(); h != nil && g.p.inModule(h) {
					for i, a := range com.Args {
						if i < len(h.Params) {
							g.flow(h.Params[i], a)
						}
					}
					if v := c.Value(); v != nil && h.Signature.Results().Len() == 1 {
						g.flow(v, resKey{h, 0})
					}
				}
			}
		}
	}
}

// hold notes that the memory at addr now holds val.
func (g *globFlow) hold(addr, val ssa.Value) {
	s := globSet{}
	for _, m := range []globSet{g.pts[val], g.cont[val]} {
		for x := range m {
			s[x] = true
		}
	}
	if len(s) == 0 {
		return
	}
	for {
		g.add(g.cont, addr, s)
		switch a := addr.(type) {
		case *ssa.FieldAddr:
			g.add(g.cont, fieldKey(a.X, a.Field), s)
			return
		case *ssa.IndexAddr:
			addr = a.X
		case *ssa.Slice:
			addr = a.X
		case *ssa.UnOp:
			addr = a.X
		case *ssa.ChangeType:
			addr = a.X
		default:
			return
		}
	}
}

// capped slices have no spare capacity: appending to them always copies.
func capped(v ssa.Value) bool {
	s, ok := v.(*ssa.Slice)
	return ok && s.Max != nil && s.Max == s.High
}

func c30(p *Program, r *Report) {
	// what construction can reach, and from which entry points
	entries := map[*ssa.Function]map[string]bool{}
	var mark func(f *ssa.Function, root string)
	mark = func(f *ssa.Function, root string) {
		if f == nil || len(f.Blocks) == 0 || !p.inModule(f) || p.ctxParam(f) >= 0 || p.isInit(f) || isMethodOf(f, p.role.ctx) || entries[f][root] {
			return
		}
		if entries[f] == nil {
			entries[f] = map[string]bool{}
		}
		entries[f][root] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if m, ok := in.(*ssa.MakeClosure); ok {
					mark(m.Fn.(*ssa.Function), root)
				}
				if c, ok := in.(ssa.CallInstruction); ok {
					mark(c.Common().StaticCallee(), root)
				}
				for _, op := range in.Operands(nil) {
					if h, ok := (*op).(*ssa.Function); ok {
						mark(h, root)
					}
				}
			}
		}
	}
	for _, f := range p.Funcs() {
		if f.Synthetic != "" || p.isInit(f) || f.Pkg != p.water || f.Parent() != nil || f.Object() == nil || !f.Object().Exported() {
			continue
		}
		recv := f.Signature.Recv()
		if recv == nil && p.ctxParam(f) < 0 && !plainSetter(f) || recv != nil && isMethodOf(f, p.role.router) {
			r.ok("root", p.fnName(f))
			mark(f, p.fnName(f))
		}
	}
	g := &globFlow{p: p, pts: map[interface{}]globSet{}, cont: map[interface{}]globSet{}}
	var fs []*ssa.Function
	for f := range entries {
		fs = append(fs, f)
	}
	sort.Slice(fs, func(i, j int) bool { return fs[i].String() < fs[j].String() })
	for _, f := range fs {
		r.ok("function", p.fnName(f))
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if x, ok := (*op).(*ssa.Global); ok {
						g.add(g.pts, x, globSet{x: true})
					}
				}
			}
		}
	}
	for g.dirty = true; g.dirty; {
		g.dirty = false
		for _, f := range fs {
			g.step(f)
		}
	}
	seen := map[string]bool{}
	bad := func(f *ssa.Function, in ssa.Instruction, v ssa.Value, what string) {
		r.ok("write", p.pos(instrPos(in)))
		for x := range g.pts[v] {
			name := "package variable " + x.Pkg.Pkg.Name() + "." + x.Name()
			for e := range entries[f] {
				k := e + " -> " + name
				if !seen[k] {
					seen[k] = true
					r.fail("write", k, instrPos(in), nil, "building through %s %s %s (in %s)", e, what, name, p.fnName(f))
				}
			}
		}
	}
	for _, f := range fs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.Store:
					bad(f, in, in.Addr, "writes")
				case *ssa.MapUpdate:
					bad(f, in, in.Map, "writes an entry of")
				}
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				com := c.Common()
				if bi, ok := com.Value.(*ssa.Builtin); ok {
					switch bi.Name() {
					case "append":
						if !capped(com.Args[0]) {
							bad(f, in, com.Args[0], "appends in place to")
						}
					case "copy", "clear", "delete":
						bad(f, in, com.Args[0], "overwrites")
					}
					continue
				}
				h := com.StaticCallee()
				name := ""
				switch {
				case com.IsInvoke():
					continue
				case h == nil || p.inModule(h):
					continue
				default:
					name = h.String()
				}
				if !stdCall(name) || readOnlyCall(name) || noEffect(name) && !strings.HasPrefix(name, "(net/http.Header).") {
					continue
				}
				for _, a := range com.Args {
					if mutableRef(a.Type()) {
						bad(f, in, a, "lets "+name+" write")
					}
				}
			}
		}
	}
}

// plainSetter reports whether f exists only to assign its argument to a package
// variable: calling it is asking for a global change.
func plainSetter(f *ssa.Function) bool {
	if len(f.Params) != 1 || f.Signature.Results().Len() != 0 {
		return false
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if s, ok := in.(*ssa.Store); ok {
				if x, ok := s.Addr.(*ssa.Global); ok && derefT(x.Type()) != nil && hasValueOf(s.Val, f.Params[0]) {
					return true
				}
			}
		}
	}
	return false
}

func hasValueOf(v ssa.Value, p *ssa.Parameter) bool {
	for i := 0; i < 4; i++ {
		if v == p {
			return true
		}
		switch x := v.(type) {
		case *ssa.ChangeType:
			v = x.X
		case *ssa.Convert:
			v = x.X
		case *ssa.MakeInterface:
			v = x.X
		default:
			return false
		}
	}
	return false
}
