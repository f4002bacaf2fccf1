package main

import (
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The functions that fill a value from request data are interpreted in units:
// functions that walk (a reflect.Value and a source of values) and functions
// that store one value (a reflect.Value, an error result, no source) are roots
// of their own and steps for everyone else.

type bindUnits struct {
	p          *Program
	walk, leaf map[*ssa.Function]bool
	reaches    map[*ssa.Function]bool
}

func isSetter(name string) bool {
	if !strings.HasPrefix(name, "(reflect.Value).Set") {
		return false
	}
	switch strings.TrimPrefix(name, "(reflect.Value).") {
	case "SetLen", "SetCap", "SetIterKey", "SetIterValue":
		return false
	}
	return true
}

func calleeName(c *ssa.CallCommon) string {
	if c.IsInvoke() {
		return ""
	}
	if f := c.StaticCallee(); f != nil {
		return f.String()
	}
	return ""
}

func newBindUnits(p *Program) *bindUnits {
	u := &bindUnits{p: p, walk: map[*ssa.Function]bool{}, leaf: map[*ssa.Function]bool{}, reaches: map[*ssa.Function]bool{}}
	rv, kt := p.reflectType("Value"), p.reflectType("Kind")
	setter := p.setterTypes()
	for _, f := range p.Funcs() {
		if f.Pkg != p.binding || f.Synthetic != "" || !returnsError(f.Signature) {
			continue
		}
		val, src, slice, num := false, false, false, false
		for i, q := range f.Params {
			if types.Identical(q.Type(), rv) {
				val = true
				continue
			}
			if i == 0 && f.Signature.Recv() != nil && !isMapT(q.Type()) && !setter[typeKey(q.Type())] {
				continue
			}
			switch t := q.Type().Underlying().(type) {
			case *types.Map:
				src = true
			case *types.Interface:
				src = src || t.NumMethods() > 0 && !types.Identical(q.Type(), p.reflectType("Type"))
			case *types.Slice:
				slice = true
			case *types.Basic:
				num = num || t.Info()&types.IsInteger != 0 && !types.Identical(q.Type(), kt)
			case *types.Pointer:
				src = src || setter[typeKey(q.Type())]
			}
		}
		if !val || !u.sets(f) {
			continue
		}
		switch {
		case src && !slice:
			u.walk[f] = true
		case !src && !slice && !num:
			u.leaf[f] = true
		}
	}
	return u
}

func isMapT(t types.Type) bool { _, ok := t.Underlying().(*types.Map); return ok }

// setterTypes are the types that implement an interface of the binding package
// with a method taking a reflect.Value.
func (p *Program) setterTypes() map[string]bool {
	out := map[string]bool{}
	rv := p.reflectType("Value")
	var ifs []*types.Interface
	for _, m := range p.binding.Members {
		t, ok := m.(*ssa.Type)
		if !ok {
			continue
		}
		i, ok := t.Type().Underlying().(*types.Interface)
		if !ok {
			continue
		}
		for k := 0; k < i.NumMethods(); k++ {
			sig := i.Method(k).Type().(*types.Signature)
			for j := 0; j < sig.Params().Len(); j++ {
				if types.Identical(sig.Params().At(j).Type(), rv) {
					ifs = append(ifs, i)
				}
			}
		}
	}
	for _, m := range p.binding.Members {
		t, ok := m.(*ssa.Type)
		if !ok {
			continue
		}
		for _, i := range ifs {
			for _, x := range []types.Type{t.Type(), types.NewPointer(t.Type())} {
				if !types.IsInterface(x) && types.Implements(x, i) {
					out[typeKey(x)] = true
				}
			}
		}
	}
	return out
}

// sets: f stores into a reflect.Value, itself or through what it calls.
func (u *bindUnits) sets(f *ssa.Function) bool {
	if v, ok := u.reaches[f]; ok {
		return v
	}
	u.reaches[f] = false
	v := u.p.fnReaches(f, map[*ssa.Function]bool{}, func(g *ssa.Function) bool {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					if isSetter(calleeName(c.Common())) {
						return true
					}
					if c.Common().IsInvoke() {
						sig := c.Common().Signature()
						for j := 0; j < sig.Params().Len(); j++ {
							if types.Identical(sig.Params().At(j).Type(), u.p.reflectType("Value")) {
								return true
							}
						}
					}
				}
			}
		}
		return false
	})
	u.reaches[f] = v
	return v
}

// step: calls of g from f are not entered.
func (u *bindUnits) step(f, g *ssa.Function) bool {
	if u.walk[g] {
		return true
	}
	return u.leaf[g] && !u.leaf[f]
}

// roots lists the units and every other function of the package that stores
// and is called by nobody in the module.
func (u *bindUnits) roots() []*ssa.Function {
	var out []*ssa.Function
	callers := map[*ssa.Function][]*ssa.Function{}
	for _, f := range u.p.Funcs() {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					if g := c.Common().StaticCallee(); g != nil {
						callers[g] = append(callers[g], f)
					}
				}
			}
		}
	}
	for _, f := range u.p.Funcs() {
		if f.Pkg != u.p.binding || f.Synthetic != "" || f.Parent() != nil {
			continue
		}
		switch {
		case u.walk[f]:
			out = append(out, f)
		case u.leaf[f]:
			for _, c := range callers[f] {
				if !u.leaf[c] {
					out = append(out, f)
					break
				}
			}
		case u.sets(f) && len(callers[f]) == 0:
			out = append(out, f)
		}
	}
	return out
}

// valueArg finds the reflect.Value argument and the reflect.Kind argument.
func (u *bindUnits) valueArg(f *ssa.Function) (val, kind int) {
	val, kind = -1, -1
	for i, q := range f.Params {
		if types.Identical(q.Type(), u.p.reflectType("Value")) && val < 0 {
			val = i
		}
		if types.Identical(q.Type(), u.p.reflectType("Kind")) && kind < 0 {
			kind = i
		}
	}
	return
}

// args are the arguments of a root: a kind that comes with a value is the kind
// of that value (checked where the root is called).
func (u *bindUnits) args(it *Interp, f *ssa.Function) []*Expr {
	args := it.Params(f)
	if v, k := u.valueArg(f); v >= 0 && k >= 0 {
		args[k] = it.kindOf(args[v])
	}
	return args
}

func (it *Interp) kindOf(v *Expr) *Expr {
	return it.in.mk(Expr{Op: OpCall, Name: "(reflect.Type).Kind", Args: []*Expr{it.typeOfValue(v)}, Typ: it.p.reflectType("Kind")})
}

// run interprets every unit; the hooks are set by the rule for each of them.
func (u *bindUnits) run(r *Report, hook func(it *Interp, f *ssa.Function, s *State, args []*Expr), done func(it *Interp, f *ssa.Function, args []*Expr, ex []exit)) {
	seen := map[*ssa.Function]bool{}
	todo := u.roots()
	for len(todo) > 0 {
		f := todo[0]
		todo = todo[1:]
		if seen[f] {
			continue
		}
		seen[f] = true
		it := newInterp(u.p)
		s := it.initial()
		args := u.args(it, f)
		it.hooks.Opaque = func(g *ssa.Function, ev *CallEv) bool {
			if ev.Fr == nil || ev.Fr.fn == nil {
				return u.step(f, g)
			}
			return u.step(ev.Fr.fn, g)
		}
		hook(it, f, s, args)
		call := it.hooks.Call
		it.hooks.Call = func(s *State, ev *CallEv) {
			if ev.Cut && ev.Fn != nil && u.sets(ev.Fn) {
				todo = append(todo, ev.Fn)
			}
			if ev.Fn != nil && ev.Kind != "defer-stmt" && u.leaf[ev.Fn] && u.step(ev.Fr.fn, ev.Fn) {
				if v, k := u.valueArg(ev.Fn); v >= 0 && k >= 0 {
					want := it.kindOf(it.snapshot(s, ev.Args[v]))
					r.ok("kind", u.p.fnName(f)+u.p.pos(ev.Pos))
					if x := it.snapshot(s, ev.Args[k]); x != want {
						r.fail("kind", u.p.fnName(ev.Fr.fn)+" "+u.p.fnName(ev.Fn), ev.Pos, s, "%s is given the kind %s for a value of kind %s", u.p.fnName(ev.Fn), x, want)
					}
				}
			}
			if call != nil {
				call(s, ev)
			}
		}
		ex := it.startWith(f, s, args)
		if done != nil {
			done(it, f, args, ex)
		}
		r.absorb(it, u.p.fnName(f))
	}
}

var (
	typInt   = types.Typ[types.Int]
	typBool  = types.Typ[types.Bool]
	typError = types.Universe.Lookup("error").Type()
)

func isUnsigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}

func isFloatT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

func isBoolT(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

func constantString(s string) constant.Value { return constant.MakeString(s) }
