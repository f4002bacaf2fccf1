package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C20", "Every Bind and Bind2 method of the binding package is interpreted: at each return that may be nil, either the configured validator is known nil or the result of its ValidateStruct on the bound object itself is known nil or returned, "+
		"after the last call that could fill the object, and the object was given to something that fills it. ValidateStruct (and every function it recurses through) is interpreted on a value of unknown kind: a return that may be nil requires, for pointers, "+
		"the validation of what they point to; for structs, the engine's Struct on the value; for slices and arrays, the validation of elements 0..Len-1 in turn with no failed one forgotten.",
		map[string]int{"binder": 12, "return": 14, "descend": 1, "kind": 4}, c20)
}

func c20(p *Program, r *Report) {
	iface := p.named(p.binding, "StructValidater")
	glob, _ := p.binding.Members["Validator"].(*ssa.Global)
	if iface == nil || glob == nil {
		r.missing("binding.Validator / StructValidater")
		return
	}
	it0 := iface.Underlying().(*types.Interface)
	for _, f := range p.Funcs() {
		if f.Pkg != p.binding || f.Synthetic != "" || f.Signature.Recv() == nil || len(f.Blocks) == 0 {
			continue
		}
		if n := f.Name(); (n == "Bind" || n == "Bind2") && returnsError(f.Signature) {
			if k := len(f.Params); k > 1 && isEmptyIface(f.Params[k-1].Type()) {
				c20binder(p, r, f, glob, it0)
			}
		}
	}
	done := map[*ssa.Function]bool{}
	for _, f := range p.Funcs() {
		if f.Name() == "ValidateStruct" && f.Synthetic == "" && f.Signature.Recv() != nil && types.Implements(f.Signature.Recv().Type(), it0) {
			c20validator(p, r, f, done)
		}
	}
}

func isEmptyIface(t types.Type) bool {
	i, ok := t.Underlying().(*types.Interface)
	return ok && i.NumMethods() == 0
}

func c20binder(p *Program, r *Report, f *ssa.Function, glob *ssa.Global, vi *types.Interface) {
	name := p.fnName(f)
	it := newInterp(p)
	s0 := it.initial()
	args := it.Params(f)
	obj := args[len(args)-1]
	isValidate := func(ev *CallEv) bool {
		if ev.Method == "ValidateStruct" {
			return true
		}
		return ev.Fn != nil && ev.Fn.Name() == "ValidateStruct" && ev.Fn.Signature.Recv() != nil && types.Implements(ev.Fn.Signature.Recv().Type(), vi)
	}
	validates := func(g *ssa.Function) bool {
		return p.fnReaches(g, map[*ssa.Function]bool{}, func(h *ssa.Function) bool {
			for _, b := range h.Blocks {
				for _, in := range b.Instrs {
					if c, ok := in.(ssa.CallInstruction); ok && c.Common().IsInvoke() && c.Common().Method.Name() == "ValidateStruct" {
						return true
					}
				}
			}
			return false
		})
	}
	it.hooks.Opaque = func(g *ssa.Function, ev *CallEv) bool { return isValidate(ev) || !validates(g) }
	about := func(e *Expr) bool { return it.in.contains(e, obj) }
	r.ok("binder", name)
	vals := map[string]*Expr{}
	it.hooks.After = func(s *State, ev *CallEv, v *Expr) {
		if ev.Kind == "defer-stmt" || ev.Instr == nil {
			return
		}
		if isValidate(ev) {
			o := strip(ev.Args[len(ev.Args)-1])
			if o == obj {
				s.auto["valid"] = itoa(v.ID)
				vals[itoa(v.ID)] = v
			}
			return
		}
		if pure(it, s, ev) || strings.HasPrefix(ev.Name, "fmt.") || strings.HasPrefix(ev.Name, "reflect.") {
			return
		}
		for _, a := range ev.Args {
			if about(a) {
				s.auto["valid"] = ""
				s.auto["filled"] = "1"
				return
			}
		}
	}
	for _, e := range it.startWith(f, s0, args) {
		if e.panic {
			continue
		}
		s := e.st
		ret := e.vals[len(e.vals)-1]
		r.ok("return", name+p.pos(e.pos))
		if it.nilness(s, ret) == -1 {
			continue
		}
		n := s.clone()
		if !it.assume(n, it.in.eq(ret, it.in.zero(ret.Typ)), true) {
			continue
		}
		off := false
		for x, v := range s.facts {
			// the validator is known to be absent
			if v && x.Op == OpBin && x.Name == "==" && (x.Args[0].isNil() && isGlobalLoad(x.Args[1], glob) || x.Args[1].isNil() && isGlobalLoad(x.Args[0], glob)) {
				off = true
			}
		}
		if s.auto["filled"] == "" {
			r.fail("filled", name, e.pos, s, "%s may return nil without having filled the object", name)
			continue
		}
		if off {
			continue
		}
		v := vals[s.auto["valid"]]
		if v == nil {
			r.fail("validated", name, e.pos, s, "%s may return nil without having validated the object after filling it", name)
			continue
		}
		if strip(ret) != v && it.nilness(n, v) != 1 {
			r.fail("validated", name, e.pos, s, "%s may return nil although the validator did not accept the object", name)
		}
	}
	r.absorb(it, name)
}

// isGlobalLoad: e is the content of the global.
func isGlobalLoad(e *Expr, g *ssa.Global) bool {
	return e.Op == OpInit && e.Args[0].Op == OpGlobal && e.Args[0].Glob == g
}

// subjectOf is the reflect.Value an interface or reflect.Value argument stands for.
func subjectOf(it *Interp, a *Expr) *Expr {
	rv := it.p.reflectType("Value")
	a = stripChange(a)
	if a.Typ != nil && types.Identical(a.Typ, rv) {
		return normValue(it, a)
	}
	if a.Op == OpCall && a.Name == "(reflect.Value).Interface" {
		return normValue(it, a.Args[0])
	}
	return it.in.mk(Expr{Op: OpCall, Name: "reflect.ValueOf", Args: []*Expr{a}, Typ: rv})
}

// normValue removes conversions to interface and back.
func normValue(it *Interp, v *Expr) *Expr {
	v = stripChange(v)
	if v.Op == OpCall && v.Name == "reflect.ValueOf" {
		if x := stripChange(v.Args[0]); x.Op == OpCall && x.Name == "(reflect.Value).Interface" {
			return normValue(it, x.Args[0])
		}
	}
	return v
}

// subjectParam finds the parameter a validation function is about.
func subjectParam(p *Program, f *ssa.Function) int {
	rv := p.reflectType("Value")
	for i, q := range f.Params {
		if i == 0 && f.Signature.Recv() != nil {
			continue
		}
		if types.Identical(q.Type(), rv) || isEmptyIface(q.Type()) {
			return i
		}
	}
	return -1
}

func c20validator(p *Program, r *Report, f *ssa.Function, done map[*ssa.Function]bool) {
	if done[f] {
		return
	}
	done[f] = true
	name := p.fnName(f)
	pi := subjectParam(p, f)
	if pi < 0 {
		r.fail("subject", name, f.Pos(), nil, "%s takes no value to validate", name)
		return
	}
	it := newInterp(p)
	in := it.in
	s0 := it.initial()
	args := it.Params(f)
	subj := subjectOf(it, args[pi])
	raw := args[pi].Typ != nil && !isEmptyIface(args[pi].Typ)
	s0.ghost["n"] = in.intc(0)
	r.ok("descend", name)
	type step struct {
		err, of *Expr
		pos     token.Pos
	}
	steps := map[string]*step{}
	cut := map[*ssa.Function]bool{}
	it.hooks.After = func(s *State, ev *CallEv, v *Expr) {
		if ev.Kind == "defer-stmt" || v == nil || ev.Instr == nil {
			return
		}
		var of *Expr
		switch {
		case strings.HasSuffix(ev.Name, "validator/v10.Validate).Struct"):
			of = subjectOf(it, ev.Args[1])
			of = in.mk(Expr{Op: OpCall, Name: "engine", Args: []*Expr{of}, Typ: v.Typ})
		case strings.HasSuffix(ev.Name, "validator/v10.Validate).StructCtx"):
			of = subjectOf(it, ev.Args[2])
			of = in.mk(Expr{Op: OpCall, Name: "engine", Args: []*Expr{of}, Typ: v.Typ})
		case ev.Cut && ev.Fn != nil:
			i := subjectParam(p, ev.Fn)
			if i < 0 || !returnsError(ev.Fn.Signature) {
				return
			}
			cut[ev.Fn] = true
			of = subjectOf(it, ev.Args[i])
		default:
			return
		}
		if of.Name == "(reflect.Value).Index" && of.Args[0] == subj {
			if d, ok := it.exact(s, of.Args[1], s.ghost["n"]); ok && d == 0 {
				s.ghost["n"] = in.addc(of.Args[1], 1)
			}
		}
		k := "e:" + itoa(v.ID)
		steps[k] = &step{v, of, ev.Pos}
		s.auto[k] = "1"
	}
	it.hooks.Arrive = func(s *State, fr *Frame, blk *ssa.BasicBlock, back bool) {
		for _, k := range sortedKeys(s.auto) {
			if strings.HasPrefix(k, "e:") {
				switch {
				case it.nilness(s, steps[k].err) == 1 && back:
					delete(s.auto, k)
				case back:
					delete(s.auto, k)
					s.auto["failed"] = "1"
				}
			}
		}
	}
	tp := it.typeOfValue(subj)
	kt := p.reflectType("Kind")
	kind := in.mk(Expr{Op: OpCall, Name: "(reflect.Type).Kind", Args: []*Expr{tp}, Typ: kt})
	elem := in.mk(Expr{Op: OpCall, Name: "(reflect.Value).Elem", Args: []*Expr{subj}, Typ: subj.Typ})
	eng := in.mk(Expr{Op: OpCall, Name: "engine", Args: []*Expr{subj}, Typ: types.Universe.Lookup("error").Type()})
	kinds := []struct {
		name string
		n    int64
	}{{"array", 17}, {"interface", 20}, {"pointer", 22}, {"slice", 23}, {"struct", 25}}
	for _, e := range it.startWith(f, s0, args) {
		if e.panic {
			continue
		}
		s := e.st
		ret := e.vals[len(e.vals)-1]
		r.ok("return", name+p.pos(e.pos))
		if it.nilness(s, ret) == -1 {
			continue
		}
		for _, k := range kinds {
			if k.name == "interface" && !raw {
				continue
			}
			n := s.clone()
			if !it.assume(n, in.eq(kind, it.typedInt(k.n, kt)), true) || !it.assume(n, in.eq(ret, in.zero(ret.Typ)), true) {
				continue
			}
			r.ok("kind", name+" "+k.name)
			want := elem
			switch k.name {
			case "struct":
				want = eng
			case "slice", "array":
				l := in.mk(Expr{Op: OpCall, Name: "(reflect.Value).Len", Args: []*Expr{subj}, Typ: types.Typ[types.Int]})
				if it.truth(n, in.lss(s.ghost["n"], l)) != -1 {
					r.fail("elements", name+" "+k.name, e.pos, n, "%s may return nil for a value of kind %s without having validated every element", name, k.name)
				} else if s.auto["failed"] != "" {
					r.fail("elements", name+" failed", e.pos, n, "%s may return nil although an element failed", name)
				}
				for _, a := range sortedKeys(s.auto) {
					if x := steps[a]; x != nil && strip(ret) != x.err && it.nilness(n, x.err) != 1 {
						r.fail("elements", name+" failed", e.pos, n, "%s may return nil although an element failed", name)
					}
				}
				continue
			}
			good := false
			for _, a := range sortedKeys(s.auto) {
				if x := steps[a]; x != nil && x.of == want && (strip(ret) == x.err || it.nilness(n, x.err) == 1) {
					good = true
				}
			}
			if !good {
				r.fail("descends", name+" "+k.name, e.pos, n, "%s may return nil for a value of kind %s that was not validated", name, k.name)
			}
		}
	}
	r.absorb(it, name)
	for g := range cut {
		c20validator(p, r, g, done)
	}
}

func (it *Interp) typedInt(n int64, t types.Type) *Expr {
	return it.in.constOf(constant.MakeInt64(n), t)
}
