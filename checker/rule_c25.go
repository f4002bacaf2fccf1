package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C25", "SetCookie is interpreted for every combination of dynamic types of its positional attributes (each documented type, nil, an undocumented type, absent) with symbolic values. "+
		"Whenever a cookie is serialised, every field of the http.Cookie must be the expression the property names for that combination and the facts of the path, and every other field zero; "+
		"on every return the header map of the response must have received exactly one added Set-Cookie value, the serialiser's result, when that result is known non-empty, and none when it is known empty. No attribute is looked at that was not given.",
		map[string]int{"cookie": 200, "emit": 200}, c25)
}

func c25(p *Program, r *Report) {
	fn := p.method(p.water, "Context", "SetCookie")
	if fn == nil || len(fn.Params) != 4 {
		r.missing("Context.SetCookie")
		return
	}
	elem := fn.Params[3].Type().Underlying().(*types.Slice).Elem()
	b := types.Typ
	var httpPkg *types.Package
	for _, q := range fn.Pkg.Pkg.Imports() {
		if q.Path() == "net/http" {
			httpPkg = q
		}
	}
	if httpPkg == nil {
		r.missing("net/http")
		return
	}
	sameSite := httpPkg.Scope().Lookup("SameSite").Type()
	cookieT := httpPkg.Scope().Lookup("Cookie").Type()
	dur := types.NewNamed(types.NewTypeName(0, nil, "otherType", nil), types.NewStruct(nil, nil), nil)
	variants := [][]types.Type{
		{b[types.Int], b[types.Int32], b[types.Int64], nil, b[types.String]},
		{b[types.String], nil, b[types.Int]},
		{b[types.String], nil, b[types.Bool]},
		{b[types.Bool], nil, dur},
		{b[types.Bool], nil, b[types.String]},
		{sameSite, nil, b[types.Bool]},
		{b[types.Int]},
	}
	if r.Tier == "thorough" {
		variants[0] = append(variants[0], b[types.Uint])
		variants[1] = append(variants[1], sameSite)
		variants[3] = append(variants[3], b[types.String])
		variants[5] = append(variants[5], b[types.Int])
	}
	// the combinations: every prefix length, full product below it
	var rec func(cur []types.Type)
	rec = func(cur []types.Type) {
		c25run(p, r, fn, elem, cookieT, cur)
		if len(cur) < len(variants) {
			for i, t := range variants[len(cur)] {
				// far positions: the product is kept over pairs of deviations from the documented types
				if i > 0 {
					dev := 0
					for j, u := range cur {
						if u != variants[j][0] {
							dev++
						}
					}
					if dev > 1 && r.Tier != "thorough" {
						continue
					}
				}
				rec(append(cur[:len(cur):len(cur)], t))
			}
		}
	}
	rec(nil)
}

func c25run(p *Program, r *Report, fn *ssa.Function, elem, cookieT types.Type, ts []types.Type) {
	it := newInterp(p)
	it.apart = 5000
	st := it.initial()
	args := it.Params(fn)
	ctx := args[0]
	st.facts[it.in.eq(ctx, it.in.zero(ctx.Typ))] = false
	vals := make([]*Expr, len(ts))
	var es []*Expr
	cls := ""
	for i, t := range ts {
		if t == nil {
			es = append(es, it.in.zero(elem))
			cls += "nil,"
			continue
		}
		vals[i] = it.param("attr"+itoa(i), t)
		es = append(es, it.in.mk(Expr{Op: OpIface, Args: []*Expr{vals[i]}, Typ: elem}))
		cls += shortType(t) + ","
	}
	cls = "SetCookie(" + strings.TrimSuffix(cls, ",") + ")"
	args[3] = it.in.mk(Expr{Op: OpList, Args: es, Typ: fn.Params[3].Type()})
	if len(ts) == 0 {
		args[3] = it.in.zero(fn.Params[3].Type())
	}
	at := func(i int, kinds ...types.BasicKind) *Expr {
		if i < len(ts) && ts[i] != nil {
			for _, k := range kinds {
				if types.Identical(ts[i], types.Typ[k]) {
					return vals[i]
				}
			}
		}
		return nil
	}
	it.hooks.Index = func(s *State, fr *Frame, base, idx *Expr, instr ssa.Instruction) {
		if stripChange(it.snapshot(s, base)) != args[3] {
			return
		}
		r.ok("index", cls+p.pos(instrPos(instr)))
		if it.truth(s, it.in.lss(idx, it.in.lenOf(args[3]))) != 1 {
			r.fail("index", p.pos(instrPos(instr)), instrPos(instr), s, "%s: attribute %s is looked at although it may not have been given", cls, idx)
		}
	}
	check := func(s *State, c *Expr, ev *CallEv) {
		r.ok("cookie", cls)
		bad := func(f string, v *Expr, why string) {
			r.fail("cookie", f, ev.Pos, s, "%s: the cookie's %s is %s, %s", cls, f, v, why)
		}
		u := cookieT.Underlying().(*types.Struct)
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			v := it.load(s, it.fieldAddr(c, f.Name(), f.Type()), f.Type())
			switch f.Name() {
			case "Name":
				if v != args[1] {
					bad("Name", v, "not the caller's name")
				}
			case "Value":
				if v != args[2] {
					bad("Value", v, "not the caller's value")
				}
			case "MaxAge":
				w := at(0, types.Int, types.Int32, types.Int64)
				if w == nil {
					if k, ok := it.exact(s, v, it.in.intc(0)); !ok || k != 0 {
						bad("MaxAge", v, "no max-age was given")
					}
				} else if it.widened(v) != w {
					if k, ok := it.exact(s, v, w); !ok || k != 0 {
						bad("MaxAge", v, "not the given max-age")
					}
				}
			case "Path":
				w := at(1, types.String)
				c, isC := v.constStr()
				switch {
				case w == nil:
					if !isC || c != "/" {
						bad("Path", v, "the default is '/'")
					}
				case it.empty(s, w) == 1:
					if !isC || c != "/" {
						bad("Path", v, "the given path is empty")
					}
				case it.empty(s, w) == 0:
					bad("Path", v, "whether the given path is empty was not decided")
				case v != w:
					bad("Path", v, "not the given path")
				}
			case "Domain":
				w := at(2, types.String)
				c, isC := v.constStr()
				switch {
				case w != nil && v == w:
				case w != nil && it.empty(s, w) != 1:
					bad("Domain", v, "not the given domain")
				case !isC || c != "":
					bad("Domain", v, "no domain was given")
				}
			case "Secure", "HttpOnly":
				n := 3
				if f.Name() == "HttpOnly" {
					n = 4
				}
				w := at(n, types.Bool)
				switch {
				case w != nil && v == w:
				case w != nil:
					if a := it.truth(s, w); a == 0 || it.truth(s, v) != a {
						bad(f.Name(), v, "not the given flag")
					}
				case n == 3 && n < len(ts) && ts[n] != nil:
					if it.truth(s, v) != 1 {
						bad("Secure", v, "a value requesting it was given")
					}
				case it.truth(s, v) != -1:
					bad(f.Name(), v, "it was not requested")
				}
			case "SameSite":
				if len(ts) > 5 && ts[5] != nil && typeKey(ts[5]) == "net/http.SameSite" {
					if v != vals[5] {
						bad("SameSite", v, "not the given mode")
					}
				} else if k, ok := it.exact(s, v, it.in.intc(0)); !ok || k != 0 {
					bad("SameSite", v, "no mode was given")
				}
			default:
				if !(v.isNil() || v.isZeroStruct() || v == it.in.zero(f.Type())) {
					bad(f.Name(), v, "it must not be set")
				}
			}
		}
	}
	it.hooks.Call = func(s *State, ev *CallEv) {
		if ev.Kind == "defer-stmt" {
			return
		}
		if ev.Name == "(*net/http.Cookie).String" {
			check(s, ev.Args[0], ev)
			return
		}
		if ev.Name == "net/http.SetCookie" {
			check(s, ev.Args[1], ev)
			if w := strip(ev.Args[0]); w != ctx && !it.isRaw(w) && !implementsWriter(w.Typ) {
				r.fail("emit", "SetCookie", ev.Pos, s, "%s: the cookie is emitted to %s", cls, w)
			}
			s.auto["emitted"] += "s"
			return
		}
		key, vs, op := it.headerWrite(ev)
		if op == "" {
			return
		}
		if k, ok := key.constStr(); !ok || canonicalHeader(k) != "Set-Cookie" {
			r.fail("emit", "SetCookie", ev.Pos, s, "%s: another response header %s is written", cls, key)
			return
		}
		if op != "Add" {
			r.fail("emit", "SetCookie", ev.Pos, s, "%s: earlier cookies are replaced (%s)", cls, op)
		}
		if len(vs) != 1 || !(vs[0].Op == OpRes || vs[0].Op == OpCall) || vs[0].Name != "(*net/http.Cookie).String" {
			r.fail("emit", "SetCookie", ev.Pos, s, "%s: the header value is not the serialised cookie", cls)
			return
		}
		if it.empty(s, vs[0]) != -1 {
			r.fail("emit", "SetCookie", ev.Pos, s, "%s: the header may be written for an invalid cookie", cls)
		}
		s.auto["emitted"] += "x"
	}
	it.hooks.After = func(s *State, ev *CallEv, res *Expr) {
		if ev.Name == "(*net/http.Cookie).String" && ev.Kind != "defer-stmt" {
			s.auto["cookie"] += "c"
			s.lists["cookie"] = append(s.lists["cookie"][:len(s.lists["cookie"]):len(s.lists["cookie"])], res)
		}
	}
	for _, e := range it.startWith(fn, st, args) {
		r.ok("emit", cls)
		if e.panic {
			r.fail("emit", "SetCookie-panic", e.pos, e.st, "%s panics", cls)
			continue
		}
		switch em := e.st.auto["emitted"]; em {
		case "x", "s":
		case "":
			l := e.st.lists["cookie"]
			if len(l) == 0 || it.empty(e.st, l[len(l)-1]) != 1 {
				r.fail("emit", "SetCookie", e.pos, e.st, "%s: no header is written although the cookie may be valid", cls)
			}
		default:
			r.fail("emit", "SetCookie", e.pos, e.st, "%s: %d headers are written", cls, len(em))
		}
	}
	r.absorb(it, "SetCookie")
}

// widened takes off the conversions between integer types that keep every
// value the operand can have, or as many bits as an int has.
func (it *Interp) widened(v *Expr) *Expr {
	sz := it.p.sizes()
	size := func(t types.Type) int64 {
		if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 && b.Info()&types.IsUnsigned == 0 {
			return sz.Sizeof(t)
		}
		return 0
	}
	w := stripConv(v)
	need := size(w.Typ)
	if i := sz.Sizeof(types.Typ[types.Int]); need > i {
		need = i
	}
	for x := v; x != w; x = x.Args[0] {
		if x.Op == OpConv && size(x.Typ) < need {
			return v
		}
	}
	return w
}
