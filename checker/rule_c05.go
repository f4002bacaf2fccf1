package main

import (
	"go/token"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type helperSpec struct {
	name   string
	recv   string // type of the receiver, Context by default
	ctype  string // constant content type, or "param:<i>"
	status string // "param:<i>" or a number
	body   int    // parameter carrying the payload, -1 none
	codec  string // encoder package fragment, "" for verbatim
}

func init() {
	register("C05", "Each documented response helper is interpreted with an unwritten response and symbolic arguments: at the head the last Content-Type set must be the documented constant (or the caller's argument), "+
		"the code must be the caller's (200 for Stream), every return path must have sent the head, and the caller's payload must be what is handed to the writer or encoder. "+
		"In every root working on a context, no response header may be set after a head sent by the same code, nor after the handler chain ran without a following head attempt.",
		map[string]int{"helper": 7, "header-set": 10, "root": 30}, func(p *Program, r *Report) {
			headRun(p, r, "C05", nil)
			specs := []helperSpec{
				{name: "String", ctype: "text/plain; charset=utf-8", status: "param:1", body: 2},
				{name: "Data", ctype: "param:2", status: "param:1", body: 3},
				{name: "HTMLRaw", ctype: "text/html; charset=utf-8", status: "param:1", body: 2},
				{name: "JSON", ctype: "application/json; charset=utf-8", status: "param:1", body: 2, codec: "json"},
				{name: "XML", ctype: "application/xml; charset=utf-8", status: "param:1", body: 2, codec: "xml"},
				{name: "Stream", ctype: "param:1", status: "200", body: 2, codec: "io"},
			}
			for _, sp := range specs {
				fn := p.method(p.water, "Context", sp.name)
				if fn == nil || fn.Synthetic != "" {
					r.missing("Context." + sp.name)
					continue
				}
				c05Helper(p, r, sp, fn, fn.Params[0])
			}
			// renderers of the package
			n := 0
			for _, f := range p.Funcs() {
				if f.Name() == "HTMLSet" && f.Signature.Recv() != nil && !isMethodOf(f, p.role.ctx) && len(f.Params) == 6 {
					n++
					c05Helper(p, r, helperSpec{name: f.String(), ctype: "text/html; charset=utf-8", status: "param:2", body: -1}, f, f.Params[1])
				}
			}
			if n == 0 {
				r.missing("default HTML renderer")
			}
		})
}

func normCT(s string) string {
	return strings.ToLower(strings.ReplaceAll(s, " ", ""))
}

func c05Helper(p *Program, r *Report, sp helperSpec, fn *ssa.Function, ctxParam *ssa.Parameter) {
	it := newInterp(p)
	args := it.Params(fn)
	var ctx *Expr
	for i, a := range fn.Params {
		if a == ctxParam {
			ctx = args[i]
		}
	}
	short := p.fnName(fn)
	fail := func(rule string, pos token.Pos, s *State, format string, a ...any) {
		r.fail(rule, short, pos, s, format, a...)
	}
	sel := func(v string) (*Expr, string) {
		if strings.HasPrefix(v, "param:") {
			return args[int(v[len("param:")]-'0')], ""
		}
		return nil, v
	}
	isPayload := func(e *Expr) bool { return sp.body >= 0 && whole(e) == args[sp.body] }
	checkCT := func(s *State, pos token.Pos) {
		l := s.lists["ct"]
		if len(l) == 0 {
			fail("content-type", pos, s, "the head is sent before a content type is set")
			return
		}
		want, lit := sel(sp.ctype)
		if want != nil {
			if l[0] != want {
				fail("content-type", pos, s, "content type %s is sent instead of the caller's %s", l[0], want)
			}
			return
		}
		if c, ok := l[0].constStr(); !ok || normCT(c) != normCT(lit) {
			fail("content-type", pos, s, "content type %s is sent, documented is %q", l[0], lit)
		}
	}
	isHead := func(s *State, ev *CallEv) bool {
		return ev.Invoke && ev.Method == "WriteHeader" && it.isRaw(ev.Args[0])
	}
	it.hooks.Opaque = func(f *ssa.Function, ev *CallEv) bool { return f == p.role.match }
	it.hooks.MapUpdate = func(s *State, fr *Frame, m, k, v *Expr, in ssa.Instruction) {
		if it.isRespHeader(m) {
			if c, ok := k.constStr(); !ok || canonicalHeader(c) == "Content-Type" {
				if v == nil {
					delete(s.lists, "ct")
					return
				}
				x := it.snapshot(s, v)
				if x.Op == OpList && len(x.Args) > 0 {
					s.lists["ct"] = []*Expr{x.Args[0]}
				} else {
					s.lists["ct"] = []*Expr{x}
				}
			}
		}
	}
	it.hooks.Call = func(s *State, ev *CallEv) {
		if ev.Kind == "defer-stmt" {
			return
		}
		if len(ev.Args) > 1 && it.isRespHeader(ev.Args[0]) {
			c, ok := ev.Args[1].constStr()
			if ok && canonicalHeader(c) != "Content-Type" {
				return
			}
			switch ev.Name {
			case "(net/http.Header).Set":
				s.lists["ct"] = []*Expr{ev.Args[2]}
			case "(net/http.Header).Add":
				if len(s.lists["ct"]) == 0 {
					s.lists["ct"] = []*Expr{it.in.mk(Expr{Op: OpSym, Name: "a value added after whatever the handler set before"})}
				}
			case "(net/http.Header).Del":
				delete(s.lists, "ct")
			}
			return
		}
		if isHead(s, ev) {
			if s.auto["head"] != "" {
				return
			}
			s.auto["head"] = "1"
			r.ok("helper", short)
			checkCT(s, ev.Pos)
			want, lit := sel(sp.status)
			if want != nil {
				if stripConv(ev.Args[1]) != want {
					fail("status", ev.Pos, s, "status %s is sent instead of the caller's", ev.Args[1])
				}
			} else if k, ok := ev.Args[1].constInt(); !ok || itoa(int(k)) != lit {
				fail("status", ev.Pos, s, "status %s is sent instead of %s", ev.Args[1], lit)
			}
			return
		}
		if ev.Invoke && ev.Method == "Write" && it.isRaw(ev.Args[0]) {
			if isPayload(ev.Args[1]) {
				s.push("pay", ev.Args[1])
			} else if sp.codec != "" && it.in.contains(ev.Args[1], args[sp.body]) && it.in.mentions(ev.Args[1], func(x *Expr) bool {
				return (x.Op == OpRes || x.Op == OpCall) && strings.Contains(strings.ToLower(x.Name), sp.codec)
			}) {
				s.push("pay", ev.Args[1])
			} else {
				s.push("other", ev.Args[1])
			}
			return
		}
		if ev.Fn != nil && !ev.Cut {
			return
		}
		// outside code that gets the context as a writer
		toCtx := false
		for _, a := range ev.Args {
			toCtx = toCtx || it.reaches(s, a, func(e *Expr) bool { return e == ctx })
		}
		if !toCtx || strings.Contains(ev.Name, ".New") {
			return
		}
		has := false
		for _, a := range ev.Args {
			x := it.snapshot(s, a)
			if x.Op == OpList {
				for _, y := range x.Args {
					has = has || isPayload(y)
				}
			}
			has = has || isPayload(a)
		}
		if !has {
			s.push("other", ev.Args...)
			return
		}
		if sp.codec != "" && sp.codec != "io" && !strings.Contains(strings.ToLower(ev.Name), sp.codec) {
			fail("codec", ev.Pos, s, "the payload is sent by %s, not by a %s encoder", ev.Name, sp.codec)
		}
		if s.auto["head"] == "" {
			// an implicit 200 goes out with the first byte
			r.ok("helper", short)
			checkCT(s, ev.Pos)
			if sp.status != "200" {
				fail("status", ev.Pos, s, "the payload is sent before the caller's status")
			}
			s.auto["head"] = "1"
		}
		s.push("pay", ev.Args...)
		s.auto["paid"] = "1"
	}
	st := it.initial()
	st.facts[it.in.eq(ctx, it.in.zero(ctx.Typ))] = false
	w := it.in.mk(Expr{Op: OpInit, Args: []*Expr{it.fieldAddr(ctx, p.role.written, nil)}, Typ: fieldType(p, p.role.written)})
	st.facts[w] = false
	for _, e := range it.startWith(fn, st, args) {
		if e.panic {
			continue
		}
		if e.st.auto["head"] == "" {
			fail("no-head", e.pos, e.st, "the helper returns without sending the head")
		}
		if sp.body >= 0 {
			if len(e.st.lists["pay"]) == 0 {
				fail("payload", e.pos, e.st, "the helper returns without sending the caller's payload")
			}
			if o := e.st.lists["other"]; len(o) > 0 {
				fail("payload", e.pos, e.st, "the helper sends something other than the caller's payload: %v", o)
			}
			if sp.codec == "" && len(e.st.lists["pay"]) > 1 && e.st.auto["paid"] == "" {
				fail("payload", e.pos, e.st, "the payload is sent more than once")
			}
		}
	}
	r.absorb(it, short)
}
