package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C18", "Every function of the module that can reach, by static calls, a call returning a closable resource and an error is interpreted, every later call also panicking. "+
		"At every return and every panic each resource whose error is not known non-nil must have been closed (directly or by a deferred call) or be part of the returned values; "+
		"a resource may not be opened again at the same place while it is still open. "+
		"In package binding a request body handed to any reader must be closed on every exit, and not before it is read.",
		map[string]int{"resource": 5, "body": 2, "exit": 10}, c18)
}

// closable reports whether t has a method Close() error.
func closable(t types.Type) bool {
	if t == nil {
		return false
	}
	o, _, _ := types.LookupFieldOrMethod(t, true, nil, "Close")
	m, ok := o.(*types.Func)
	if !ok {
		return false
	}
	sig := m.Type().(*types.Signature)
	return sig.Params().Len() == 0 && sig.Results().Len() == 1 && isErrorT(sig.Results().At(0).Type())
}

func isErrorT(t types.Type) bool {
	return t != nil && types.Identical(t, types.Universe.Lookup("error").Type())
}

// opens returns the index of the resource a call opens and of its error, or -1.
func opens(sig *types.Signature) (int, int) {
	rs := sig.Results()
	if rs.Len() < 2 || !isErrorT(rs.At(rs.Len()-1).Type()) {
		return -1, -1
	}
	for i := 0; i < rs.Len()-1; i++ {
		if closable(rs.At(i).Type()) {
			return i, rs.Len() - 1
		}
	}
	return -1, -1
}

func c18(p *Program, r *Report) {
	callers := p.staticCallers()
	// the functions that open something outside the module
	direct := func(f *ssa.Function) bool {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					if g := c.Common().StaticCallee(); g != nil && p.inModule(g) && len(g.Blocks) > 0 {
						continue
					}
					if i, _ := opens(c.Common().Signature()); i >= 0 {
						return true
					}
				}
			}
		}
		return false
	}
	reach := map[*ssa.Function]bool{}
	bodies := map[*ssa.Function]bool{}
	for _, f := range p.Funcs() {
		if direct(f) {
			reach[f] = true
		}
		if f.Pkg == p.binding {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if a, ok := in.(*ssa.FieldAddr); ok && typeKey(derefT(a.X.Type())) == "net/http.Request" && fieldNameOf(a) == "Body" {
						bodies[f] = true
					}
				}
			}
		}
	}
	close := func(m map[*ssa.Function]bool) {
		for again := true; again; {
			again = false
			for _, f := range p.Funcs() {
				if m[f] {
					continue
				}
				for _, b := range f.Blocks {
					for _, in := range b.Instrs {
						if c, ok := in.(ssa.CallInstruction); ok {
							if g := c.Common().StaticCallee(); g != nil && m[g] && !m[f] {
								m[f], again = true, true
							}
						}
					}
				}
			}
		}
	}
	close(reach)
	close(bodies)
	for _, f := range p.Funcs() {
		if !reach[f] && !bodies[f] || f.Synthetic != "" {
			continue
		}
		exported := f.Object() != nil && f.Object().Exported()
		if callers[f] > 0 && !exported {
			continue
		}
		c18one(p, r, f)
	}
}

func fieldNameOf(a *ssa.FieldAddr) string {
	return derefT(a.X.Type()).Underlying().(*types.Struct).Field(a.Field).Name()
}

func c18one(p *Program, r *Report, f *ssa.Function) {
	it := newInterp(p)
	name := p.fnName(f)
	st := it.initial()
	args := it.Params(f)
	for _, a := range args {
		if typeKey(derefT(a.Typ)) == "net/http.Request" || p.ctxParam(f) >= 0 && p.isCtxPtr(a) {
			if p.isCtxPtr(a) {
				st.facts[it.in.eq(a, it.in.zero(a.Typ))] = false
			}
		}
	}
	type res struct {
		call, err *Expr
		idx       string
		what      string
	}
	opened := map[string]*res{} // auto key -> resource
	isOpen := func(s *State, k string, o *res) bool {
		return s.auto[k] == "o" && it.nilness(s, o.err) != -1
	}
	anyOpen := func(s *State) bool {
		if s.auto["body"] == "u" {
			return true
		}
		for k, o := range opened {
			if isOpen(s, k, o) {
				return true
			}
		}
		return false
	}
	it.hooks.PanicEdge = func(s *State, ev *CallEv) bool {
		if ev.Method == "Close" || strings.HasSuffix(ev.Name, ".Close") || pure(it, s, ev) {
			return false
		}
		// operations of the operating system and constructors report failures,
		// they do not panic
		short := ev.Name[strings.LastIndexByte(ev.Name, '.')+1:]
		if strings.HasPrefix(ev.Name, "(*os.File).") || strings.HasPrefix(ev.Name, "os.") || strings.HasPrefix(short, "New") {
			return false
		}
		return anyOpen(s)
	}
	it.hooks.Call = func(s *State, ev *CallEv) {
		if ev.Kind == "defer-stmt" {
			return
		}
		isClose := ev.Method == "Close" || strings.HasSuffix(ev.Name, ".Close") || strings.HasSuffix(ev.Name, ".Close$bound")
		if isClose && len(ev.Args) > 0 {
			x := stripIface(ev.Args[0])
			for _, alt := range []*Expr{x, strip(x)} {
				if alt.Op == OpExtract {
					k := "open:" + itoa(alt.Args[0].ID) + "#" + alt.Name
					if s.auto[k] == "o" {
						s.auto[k] = "c"
					}
				}
			}
			if mentionsReqField(x, "Body") {
				s.auto["body"] = "c"
			}
			return
		}
		if f.Pkg == p.binding && ev.Fn == nil {
			for _, a := range ev.Args {
				if mentionsReqField(stripIface(a), "Body") {
					r.ok("body", name)
					if s.auto["body"] == "c" {
						r.fail("body", name+" order", ev.Pos, s, "%s reads the request body after closing it", name)
					}
					s.auto["body"] = "u"
				}
			}
		}
	}
	it.hooks.After = func(s *State, ev *CallEv, v *Expr) {
		if ev.Kind == "defer-stmt" || ev.Fn != nil && p.inModule(ev.Fn) || v == nil || v.Op != OpRes && v.Op != OpCall {
			return
		}
		i, e := opens(ev.Instr.Common().Signature())
		if i < 0 {
			return
		}
		sig := ev.Instr.Common().Signature()
		k := "open:" + itoa(v.ID) + "#" + itoa(i)
		o := &res{call: v, err: it.extract(v, e, sig.Results().At(e).Type()), idx: itoa(i), what: shortName(ev.Name)}
		r.ok("resource", name+" "+p.pos(ev.Pos))
		if s.auto[k] == "o" {
			r.fail("leak", name+" "+o.what, ev.Pos, s, "%s opens %s again before closing what it opened in an earlier iteration", name, o.what)
		}
		opened[k] = o
		s.auto[k] = "o"
	}
	it.hooks.Arrive = func(s *State, fr *Frame, blk *ssa.BasicBlock, back bool) {
		// an open that failed leaves nothing behind
		for k, o := range opened {
			if s.auto[k] == "o" && it.nilness(s, o.err) == -1 || s.auto[k] == "c" {
				delete(s.auto, k)
			}
		}
	}
	for _, e := range it.startWith(f, st, args) {
		s := e.st
		how := "returning"
		if e.panic {
			how = "panicking"
		}
		r.ok("exit", name+" "+how+p.pos(e.pos))
		for _, k := range sortedKeys(opened) {
			o := opened[k]
			if !isOpen(s, k, o) {
				continue
			}
			if !e.panic {
				kept := false
				for _, v := range e.vals {
					if it.reaches(s, v, func(x *Expr) bool { return x == o.call || x.Op == OpExtract && x.Args[0] == o.call && x.Name == o.idx }) {
						kept = true
					}
				}
				if kept {
					continue
				}
			}
			r.fail("leak", name+" "+o.what, e.pos, s, "%s leaves what %s opened open when %s", name, o.what, how)
		}
		if s.auto["body"] == "u" {
			r.fail("body", name, e.pos, s, "%s leaves the request body open when %s", name, how)
		}
	}
	r.absorb(it, name)
}
