package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// hdrName recognises a read of a request header and returns its name.
func hdrName(e *Expr) (string, bool) {
	e = strip(e)
	if e == nil {
		return "", false
	}
	if e.Op == OpCall && e.Name == "(net/http.Header).Get" && len(e.Args) == 2 {
		if n, ok := e.Args[1].constStr(); ok && mentionsReqField(e.Args[0], "Header") {
			return canonicalHeader(n), true
		}
	}
	return "", false
}

// mentionsReqField reports whether e is the content of a field of a request.
func mentionsReqField(e *Expr, f string) bool {
	e = strip(e)
	return e != nil && e.Op == OpInit && e.Args[0].Op == OpFieldAddr && e.Args[0].Name == f &&
		typeKey(derefT(e.Args[0].Args[0].Typ)) == "net/http.Request"
}

// empty decides whether the string e is empty: 1 yes, -1 no, 0 unknown.
func (it *Interp) empty(s *State, e *Expr) int {
	return it.truth(s, it.in.lss(it.in.lenOf(e), it.in.intc(1)))
}

// eqStr decides e == v.
func (it *Interp) eqStr(s *State, e *Expr, v string) int {
	return it.truth(s, it.in.eq(e, it.in.constOf(constant.MakeString(v), types.Typ[types.String])))
}

// splitCall recognises strings.Split(x, sep).
func splitCall(e *Expr, sep string) (*Expr, bool) {
	e = strip(e)
	if e == nil || e.Op != OpCall || e.Name != "strings.Split" && e.Name != "strings.SplitN" {
		return nil, false
	}
	if v, ok := e.Args[1].constStr(); !ok || v != sep {
		return nil, false
	}
	if e.Name == "strings.SplitN" {
		if n, ok := e.Args[2].constInt(); !ok || n >= 0 {
			return nil, false
		}
	}
	return e.Args[0], true
}

// elem0 recognises the first element of a slice.
func elem0(e *Expr) (*Expr, bool) {
	e = strip(e)
	if e == nil || e.Op != OpInit || e.Args[0].Op != OpIndexAddr {
		return nil, false
	}
	if k, ok := e.Args[0].Args[1].constInt(); !ok || k != 0 {
		return nil, false
	}
	return e.Args[0].Args[0], true
}

// nonPanic starts fn on symbolic arguments and returns the normal exits.
func (it *Interp) normal(fn *ssa.Function, st *State, args []*Expr) []exit {
	var out []exit
	for _, e := range it.startWith(fn, st, args) {
		if !e.panic {
			out = append(out, e)
		}
	}
	return out
}

func init() {
	register("C32", "RealIp, Proxy and Protocol are interpreted with symbolic header values. On every path the returned value must be the one the precedence names for the facts of that path: "+
		"the real-IP header only if known non-empty; otherwise the first forwarded-for entry only if known present and non-empty; otherwise the remote address cut at its last colon; "+
		"the forwarded protocol only if known to be http or https, otherwise by whether TLS is known present or absent.",
		map[string]int{"ip": 4, "proxy": 2, "proto": 4}, c32)
}

func c32(p *Program, r *Report) {
	fnm := func(n string) *ssa.Function {
		f := p.method(p.water, "Context", n)
		if f == nil {
			r.missing("Context." + n)
		}
		return f
	}
	type pathCheck func(it *Interp, e *exit, v *Expr) string
	run := func(name, rule string, chk pathCheck) {
		f := fnm(name)
		if f == nil {
			return
		}
		it := newInterp(p)
		st := it.initial()
		args := it.Params(f)
		st.facts[it.in.eq(args[0], it.in.zero(args[0].Typ))] = false
		for _, e := range it.startWith(f, st, args) {
			if e.panic {
				r.fail(rule, name+"-panic", e.pos, e.st, "%s panics", name)
				continue
			}
			r.ok(rule, name+" "+p.pos(e.pos)+e.vals[0].String()+itoa(len(e.st.facts)))
			if m := chk(it, &e, e.vals[0]); m != "" {
				r.fail(rule, name, e.pos, e.st, "%s returns %s: %s", name, e.vals[0], m)
			}
		}
		r.absorb(it, name)
	}
	// hdr is the expression the header read of the named request header has
	hdr := func(it *Interp, ctx *Expr, name string) *Expr {
		var res *Expr
		for _, x := range it.in.byID {
			if n, ok := hdrName(x); ok && n == canonicalHeader(name) && x.Op == OpCall {
				res = x
			}
		}
		return res
	}
	xffOf := func(it *Interp) *Expr { return hdr(it, nil, "X-Forwarded-For") }
	run("RealIp", "ip", func(it *Interp, e *exit, v *Expr) string {
		s := e.st
		v = strip(v)
		real := hdr(it, nil, "X-Real-IP")
		if real == nil {
			return "the real-IP header is not consulted"
		}
		if v == real {
			if it.empty(s, real) != -1 {
				return "the real-IP header may be absent here"
			}
			return ""
		}
		if it.empty(s, real) != 1 {
			return "the real-IP header may be present here"
		}
		xff := xffOf(it)
		if xff == nil {
			return "the forwarded-for header is not consulted"
		}
		var first *Expr
		for _, x := range it.in.byID {
			if l, ok := elem0(x); ok {
				if src, ok := splitCall(l, ", "); ok && src == xff {
					first = x
				}
			}
		}
		if first != nil && v == first {
			if it.empty(s, xff) != -1 || it.empty(s, first) != -1 {
				return "the first forwarded-for address may be missing or empty here"
			}
			return ""
		}
		if !(it.empty(s, xff) == 1 || first != nil && it.empty(s, first) == 1) {
			// len(split) < 1 cannot happen for a non-empty header
			return "a non-empty forwarded-for address may exist here"
		}
		addr := v
		if v.Op == OpSlice {
			addr = v.Args[0]
		}
		if !mentionsReqField(addr, "RemoteAddr") {
			return "this is not the remote address"
		}
		var li *Expr
		for _, x := range it.in.byID {
			if x.Op == OpCall && (x.Name == "strings.LastIndex" || x.Name == "strings.LastIndexByte") && x.Args[0] == addr {
				c, ok := x.Args[1].constStr()
				n, okn := x.Args[1].constInt()
				if ok && c == ":" || okn && n == ':' {
					li = x
				}
			}
		}
		if li == nil {
			return "the port is not looked for"
		}
		if v.Op == OpSlice {
			if v.Args[1] == nil && v.Args[2] == li {
				if it.truth(s, it.in.lss(li, it.in.intc(0))) != -1 && it.truth(s, it.in.eq(li, it.in.intc(-1))) != -1 {
					return "the remote address may have no colon to be cut at"
				}
				return ""
			}
			return "the address is not cut at its last colon"
		}
		if it.truth(s, it.in.lss(li, it.in.intc(0))) != 1 {
			return "the remote address may carry a port here"
		}
		return ""
	})
	run("Proxy", "proxy", func(it *Interp, e *exit, v *Expr) string {
		xff := xffOf(it)
		if xff == nil {
			return "the forwarded-for header is not consulted"
		}
		if v.isNil() {
			if it.empty(e.st, xff) != 1 {
				return "the forwarded-for header may be present here"
			}
			return ""
		}
		if src, ok := splitCall(v, ", "); ok && src == xff {
			if it.empty(e.st, xff) != -1 {
				return "an absent header must give nil"
			}
			return ""
		}
		return "this is not the forwarded-for header split into its entries"
	})
	run("Protocol", "proto", func(it *Interp, e *exit, v *Expr) string {
		s := e.st
		xfp := hdr(it, nil, "X-Forwarded-Proto")
		if xfp == nil {
			return "the forwarded protocol is not consulted"
		}
		c, isC := v.constStr()
		for _, w := range []string{"http", "https"} {
			if it.eqStr(s, xfp, w) == 1 {
				if v == xfp || isC && c == w {
					return ""
				}
				return "the forwarded protocol is " + w
			}
		}
		if it.eqStr(s, xfp, "http") != -1 || it.eqStr(s, xfp, "https") != -1 {
			return "whether the forwarded protocol is valid was not decided"
		}
		tls := 0
		for f := range s.facts {
			if f.Op == OpBin && f.Name == "==" && f.Args[1].isNil() && mentionsReqField(f.Args[0], "TLS") {
				tls = it.nilness(s, f.Args[0])
			}
		}
		switch {
		case tls == 0:
			return "the result does not depend on whether the connection uses TLS"
		case tls == 1 && isC && c == "http", tls == -1 && isC && c == "https":
			return ""
		}
		return "wrong protocol for the connection"
	})
}

func init() {
	register("C29", "Each named shortcut is interpreted with symbolic arguments: every path must make exactly one status decision, with the documented constant (or, for Abort, the caller's code), "+
		"through the tracked writer's head or http.Redirect on the context, its request and the caller's target.",
		map[string]int{"shortcut": 9}, c29)
}

func c29(p *Program, r *Report) {
	table := []struct {
		name string
		code int64
		redi bool
	}{
		{"MovedPermanently", 301, true}, {"Found", 302, true}, {"NotModified", 304, false}, {"BadRequest", 400, false},
		{"Unauthorized", 401, false}, {"Forbidden", 403, false}, {"NotFound", 404, false}, {"InternalServerError", 500, false}, {"Abort", -1, false},
	}
	for _, t := range table {
		fn := p.method(p.water, "Context", t.name)
		if fn == nil {
			r.missing("Context." + t.name)
			continue
		}
		it := newInterp(p)
		st := it.initial()
		args := it.Params(fn)
		ctx := args[0]
		st.facts[it.in.eq(ctx, it.in.zero(ctx.Typ))] = false
		w := it.in.mk(Expr{Op: OpInit, Args: []*Expr{it.fieldAddr(ctx, p.role.written, nil)}, Typ: fieldType(p, p.role.written)})
		st.facts[w] = false
		codeOK := func(e *Expr) bool {
			if t.code < 0 {
				return stripConv(e) == args[1]
			}
			k, ok := e.constInt()
			return ok && k == t.code
		}
		it.hooks.Call = func(s *State, ev *CallEv) {
			if ev.Kind == "defer-stmt" {
				return
			}
			switch {
			case ev.Invoke && ev.Method == "WriteHeader" && it.isRaw(ev.Args[0]):
				s.auto["sent"] += "x"
				if t.redi {
					r.fail("redirect", t.name, ev.Pos, s, "%s sends a head itself instead of redirecting", t.name)
				} else if !codeOK(ev.Args[1]) {
					r.fail("code", t.name, ev.Pos, s, "%s sends %s", t.name, ev.Args[1])
				}
			case ev.Name == "net/http.Redirect":
				s.auto["sent"] += "x"
				if !t.redi {
					r.fail("redirect", t.name, ev.Pos, s, "%s redirects", t.name)
					return
				}
				if strip(ev.Args[0]) != ctx {
					r.fail("writer", t.name, ev.Pos, s, "the redirect is not sent through the context")
				}
				if !it.isCtxRequest(ev.Args[1], ctx) {
					r.fail("request", t.name, ev.Pos, s, "the redirect is not for the context's request")
				}
				if ev.Args[2] != args[1] {
					r.fail("target", t.name, ev.Pos, s, "%s redirects to %s instead of the caller's target", t.name, ev.Args[2])
				}
				if !codeOK(ev.Args[3]) {
					r.fail("code", t.name, ev.Pos, s, "%s redirects with %s", t.name, ev.Args[3])
				}
			case ev.Invoke && ev.Method == "Write" && it.isRaw(ev.Args[0]):
				r.fail("body", t.name, ev.Pos, s, "%s sends body bytes", t.name)
			}
		}
		for _, e := range it.startWith(fn, st, args) {
			r.ok("shortcut", t.name)
			if e.panic {
				r.fail("panic", t.name, e.pos, e.st, "%s panics", t.name)
			} else if e.st.auto["sent"] != "x" {
				r.fail("sent", t.name, e.pos, e.st, "%s decides the status %d times on this path", t.name, len(e.st.auto["sent"]))
			}
		}
		r.absorb(it, t.name)
	}
}

// isCtxRequest reports whether e is the request of the context.
func (it *Interp) isCtxRequest(e, ctx *Expr) bool {
	e = strip(e)
	return e.Op == OpInit && e.Args[0].Op == OpFieldAddr && e.Args[0].Name == "Request" && e.Args[0].Args[0] == ctx
}

func init() {
	register("C33", "Set, Get, GetMaybe, Has of the environment (map and context forms), its typed reads and Params.String are interpreted with a symbolic map: "+
		"Set must store exactly the given value under the given name with absence known, and may only panic, storing nothing, with presence known; reads must return the entry of exactly that name with presence known, panic only with absence known, "+
		"and the optional read must report presence as it is.",
		map[string]int{"op": 10, "typed": 7}, c33)
}

func c33(p *Program, r *Report) {
	env := p.named(p.water, "Environ")
	par := p.named(p.water, "Params")
	if env == nil || par == nil {
		r.missing("types Environ and Params")
		return
	}
	mapOf := func(it *Interp, fn *ssa.Function, args []*Expr) func(m *Expr) bool {
		return func(m *Expr) bool {
			m = stripChange(m)
			if m == stripChange(args[0]) {
				return true
			}
			// the map held by the context
			return m.Op == OpInit && m.Args[0].Op == OpFieldAddr && m.Args[0].Args[0] == args[0] &&
				(types.Identical(m.Typ, env) || types.Identical(m.Typ, par))
		}
	}
	// presence of name in the map: the facts about it
	has := func(it *Interp, s *State, isM func(*Expr) bool, key *Expr) int {
		for _, x := range it.in.byID {
			if x.Op == OpLookupOk && isM(x.Args[0]) && x.Args[1] == key && x.Name == "" {
				if t := it.truth(s, x); t != 0 {
					return t
				}
			}
		}
		return 0
	}
	isEntry := func(v *Expr, isM func(*Expr) bool, key *Expr) bool {
		v = stripChange(v)
		return v.Op == OpLookup && v.Name == "" && isM(v.Args[0]) && v.Args[1] == key
	}
	for _, f := range p.Funcs() {
		if f.Parent() != nil || f.Signature.Recv() == nil || f.Synthetic != "" {
			continue
		}
		onEnv, onCtx, onPar := isMethodOf(f, env), isMethodOf(f, p.role.ctx), isMethodOf(f, par)
		if !onEnv && !onCtx && !onPar {
			continue
		}
		kind := ""
		switch f.Name() {
		case "Set", "Get", "GetMaybe", "Has":
			if !onPar {
				kind = f.Name()
			}
		case "String":
			if onPar {
				kind = "Get"
			}
		case "Param":
			if onCtx {
				kind = "Get"
			}
		default:
			if onEnv && strings.HasPrefix(f.Name(), "Get") {
				kind = "Typed"
			}
		}
		if kind == "" || len(f.Params) < 2 || !isStringT(f.Params[1].Type()) {
			continue
		}
		name := p.fnName(f)
		it := newInterp(p)
		st := it.initial()
		args := it.Params(f)
		st.facts[it.in.eq(args[0], it.in.zero(args[0].Typ))] = false
		isM := mapOf(it, f, args)
		key := args[1]
		fail := func(pos token.Pos, s *State, format string, a ...any) {
			r.fail("environment", name, pos, s, format, a...)
		}
		it.hooks.MapUpdate = func(s *State, fr *Frame, m, k, v *Expr, in ssa.Instruction) {
			if !isM(m) {
				return
			}
			s.auto["upd"] += "x"
			if kind != "Set" {
				fail(instrPos(in), s, "a read modifies the map")
				return
			}
			if k != key || v != args[2] {
				fail(instrPos(in), s, "%s is stored under %s instead of the given value under the given name", v, k)
			}
			if has(it, s, isM, key) != -1 {
				fail(instrPos(in), s, "the name may already be set when the value is stored")
			}
		}
		exits := it.startWith(f, st, args)
		for _, e := range exits {
			s := e.st
			hv := has(it, s, isM, key)
			if kind == "Typed" {
				r.ok("typed", name)
				if e.panic {
					continue
				}
				v := stripChange(e.vals[0])
				if !(v.Op == OpAssert && isEntry(v.Args[0], isM, key)) {
					fail(e.pos, s, "a missing or differently typed entry yields %s instead of a panic", e.vals[0])
					continue
				}
				ok := it.in.mk(Expr{Op: OpAssertOk, Args: []*Expr{v.Args[0]}, Name: typeKey(v.Typ), Typ: v.Typ})
				if it.truth(s, ok) != 1 {
					fail(e.pos, s, "a missing or differently typed entry may yield a zero value")
				}
				if !types.Identical(v.Typ, f.Signature.Results().At(0).Type()) {
					fail(e.pos, s, "the entry is converted from another type")
				}
				continue
			}
			r.ok("op", name+itoa(hv)+map[bool]string{true: "p"}[e.panic])
			switch kind {
			case "Set":
				if e.panic {
					if hv != 1 {
						fail(e.pos, s, "Set panics although the name may be unset")
					}
					if s.auto["upd"] != "" {
						fail(e.pos, s, "the earlier value is replaced before the panic")
					}
				} else if s.auto["upd"] != "x" {
					fail(e.pos, s, "Set returns without storing the value exactly once")
				}
			case "Get":
				if e.panic {
					if hv != -1 {
						fail(e.pos, s, "reading panics although the name may exist")
					}
				} else if !isEntry(e.vals[0], isM, key) || hv != 1 {
					fail(e.pos, s, "reading yields %s, not the entry of that name known to exist", e.vals[0])
				}
			case "Has", "GetMaybe":
				if e.panic {
					fail(e.pos, s, "%s panics", kind)
					continue
				}
				ok := e.vals[len(e.vals)-1]
				direct := ok.Op == OpLookupOk && isM(ok.Args[0]) && ok.Args[1] == key
				if c, isC := ok.constBool(); !direct && !(isC && hv != 0 && c == (hv == 1)) {
					fail(e.pos, s, "presence is reported as %s", ok)
				}
				if kind == "GetMaybe" {
					v := e.vals[0]
					if !isEntry(v, isM, key) && !(v.isNil() && hv == -1) {
						fail(e.pos, s, "the optional read yields %s", v)
					}
				}
			}
		}
		r.absorb(it, name)
	}
}

func constInt(k int) constant.Value { return constant.MakeInt64(int64(k)) }
