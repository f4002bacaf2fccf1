package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C21", "NewBindinger is interpreted for every pair of method class and media type (each documented constant and 'any other string'); the dynamic type of the result must be the documented binder's. "+
		"Context.ContentType must return the request's content type cut at its first space or semicolon: every loop iteration that continues must know its character to be neither. "+
		"Context.Bind is interpreted for every pair, Context.BindWith for every binder: the binder used, its request and target arguments, the returned error, and a preceding form parse exactly for binders other than JSON and XML.",
		map[string]int{"select": 40, "media-type": 2, "bind": 40, "bindwith": 5}, c21)
	register("C28", "ParseFormOrMultipartForm is interpreted for every method class and flag value: no call when already parsed, otherwise exactly one parse call, multipart exactly when method and content type are known to ask for it, flag set, error known nil on return and known non-nil on panic. "+
		"The limit passed (here, in the multipart binder and wherever else the module parses a multipart form before reading an upload; a reader of net/http that would parse the form itself must not be reached with the form unparsed) must be read from a location that Router.Handler, interpreted with symbolic options, leaves equal to the final value of the engine's option, whose value before any option is applied is 32 MiB; WithMaxMultipartMemory must store its argument there; no other function stores to these locations.",
		map[string]int{"parse": 10, "limit": 3, "option": 1, "handler": 1}, c28)
}

const (
	mtJSON  = "application/json"
	mtXML   = "application/xml"
	mtXML2  = "text/xml"
	mtForm  = "application/x-www-form-urlencoded"
	mtMulti = "multipart/form-data"
)

var mediaTypes = []string{mtJSON, mtXML, mtXML2, mtForm, mtMulti, "text/plain", "", "?other"}

func expectedBinder(method, ct string) string {
	switch {
	case method == "GET":
		return "Form"
	case (method == "POST" || method == "PUT" || method == "PATCH") && ct == mtMulti:
		return "FormMultipart"
	case ct == mtJSON:
		return "JSON"
	case ct == mtXML, ct == mtXML2:
		return "XML"
	}
	return "Form"
}

// symStr makes a symbolic string known to differ from all of vs, or a constant.
func (it *Interp) symStr(s *State, name, v string, vs []string) *Expr {
	if v != "?other" {
		return it.in.constOf(constant.MakeString(v), types.Typ[types.String])
	}
	x := it.param(name, types.Typ[types.String])
	for _, o := range vs {
		if o != "?other" {
			s.facts[it.in.eq(x, it.in.constOf(constant.MakeString(o), types.Typ[types.String]))] = false
		}
	}
	return x
}

// dynType is the known dynamic type of a value, nil if unknown.
func dynType(e *Expr) types.Type {
	e = stripIface(e)
	if e.Op == OpIface {
		return e.Args[0].Typ
	}
	if e.Typ != nil && !types.IsInterface(e.Typ) {
		return e.Typ
	}
	return nil
}

// binderTypes maps the exported binder variables to the types they hold.
func (p *Program) binderTypes() map[string]types.Type {
	out := map[string]types.Type{}
	for _, n := range []string{"JSON", "XML", "Form", "FormMultipart", "Query", "Header"} {
		if g, ok := p.binding.Members[n].(*ssa.Global); ok {
			out[n] = derefT(g.Type())
		}
	}
	return out
}

func c21(p *Program, r *Report) {
	bt := p.binderTypes()
	if len(bt) != 6 {
		r.missing("binder variables of package binding")
		return
	}
	sel := p.fn(p.binding, "NewBindinger")
	ctOf := p.method(p.water, "Context", "ContentType")
	bind := p.method(p.water, "Context", "Bind")
	with := p.method(p.water, "Context", "BindWith")
	parse := p.method(p.water, "Context", "ParseFormOrMultipartForm")
	if sel == nil || ctOf == nil || bind == nil || with == nil || parse == nil {
		r.missing("NewBindinger, Context.ContentType, Bind, BindWith, ParseFormOrMultipartForm")
		return
	}
	methods := append([]string{"?other"}, verbs...)
	for _, m := range methods {
		for _, ct := range mediaTypes {
			it := newInterp(p)
			st := it.initial()
			args := []*Expr{it.symStr(st, "method", m, verbs), it.symStr(st, "contentType", ct, mediaTypes)}
			want := expectedBinder(m, ct)
			cls := m + " " + ct
			for _, e := range it.startWith(sel, st, args) {
				r.ok("select", cls)
				if e.panic {
					r.fail("select", cls, e.pos, e.st, "NewBindinger panics for %s", cls)
					continue
				}
				v := e.vals[0]
				if t := dynType(v); t == nil || !types.Identical(t, bt[want]) {
					r.fail("select", cls, e.pos, e.st, "NewBindinger selects %s for %s, documented is %s", v, cls, want)
				}
			}
			r.absorb(it, "NewBindinger")
		}
	}
	c21ContentType(p, r, ctOf)

	flag := p.parsedFlag(parse)
	if flag == "" {
		r.missing("context field recording that the form was parsed")
		return
	}
	opaque := func(f *ssa.Function, ev *CallEv) bool {
		return f.Pkg == p.binding && f != sel && f.Name() != "Name" && f.Name() != "init"
	}
	isBind := func(ev *CallEv) bool {
		if ev.Kind == "defer-stmt" || len(ev.Args) != 3 {
			return false
		}
		if ev.Invoke {
			return strings.HasPrefix(ev.Method, "Bind")
		}
		return ev.Fn != nil && ev.Fn.Pkg == p.binding && strings.HasPrefix(ev.Fn.Name(), "Bind") && ev.Fn.Signature.Recv() != nil
	}
	one := func(rule, cls, want string, fn *ssa.Function, setup func(it *Interp, st *State, args []*Expr)) {
		it := newInterp(p)
		st := it.initial()
		args := it.Params(fn)
		ctx, obj := args[0], args[1]
		st.facts[it.in.eq(ctx, it.in.zero(ctx.Typ))] = false
		was := it.load(st, it.fieldAddr(ctx, flag, pointerTo(typBool)), typBool)
		setup(it, st, args)
		var last *Expr
		it.hooks.Opaque = opaque
		it.hooks.Call = func(s *State, ev *CallEv) {
			if ev.Kind == "defer-stmt" {
				return
			}
			if parsesForm(ev) {
				s.auto["parsed"] = "1"
				if !it.isCtxRequest(ev.Args[0], ctx) {
					r.fail(rule, cls, ev.Pos, s, "the form of %s is parsed, not the context's request", ev.Args[0])
				}
			}
			if !isBind(ev) {
				return
			}
			s.auto["bound"] += "x"
			b := ev.Args[0]
			if t := dynType(b); t == nil || !types.Identical(t, bt[want]) {
				r.fail(rule, cls, ev.Pos, s, "%s binds with %s, documented is %s", cls, b, want)
			}
			if !it.isCtxRequest(ev.Args[1], ctx) {
				r.fail(rule, cls, ev.Pos, s, "the binder is given %s instead of the context's request", ev.Args[1])
			}
			if ev.Args[2] != obj {
				r.fail(rule, cls, ev.Pos, s, "the binder is given %s instead of the caller's object", ev.Args[2])
			}
			plain := want != "JSON" && want != "XML"
			if plain && s.auto["parsed"] == "" && it.truth(s, was) != 1 {
				r.fail(rule, cls, ev.Pos, s, "%s: the form is not parsed before the %s binder runs", cls, want)
			}
			if !plain && s.auto["parsed"] != "" {
				r.fail(rule, cls, ev.Pos, s, "%s: the form is parsed before the %s binder runs and may consume the body", cls, want)
			}
		}
		it.hooks.After = func(s *State, ev *CallEv, res *Expr) {
			if isBind(ev) {
				last = res
			}
			if parsesForm(ev) {
				s.push("unparsed", res)
			}
		}
	next:
		for _, e := range it.startWith(fn, st, args) {
			r.ok(rule, cls)
			if e.panic {
				// a form that cannot be parsed may be raised
				raised := false
				for _, x := range e.st.lists["unparsed"] {
					raised = raised || it.nilness(e.st, x) == -1
				}
				if !raised {
					r.fail(rule, cls, e.pos, e.st, "%s panics for %s", fn.Name(), cls)
				}
				continue
			}
			if len(e.st.lists["unparsed"]) > 0 && e.st.auto["bound"] == "" {
				// a form that cannot be parsed
				for _, x := range e.st.lists["unparsed"] {
					if it.nilness(e.st, x) == -1 && it.nilness(e.st, e.vals[0]) == -1 {
						continue next
					}
				}
			}
			if e.st.auto["bound"] != "x" {
				r.fail(rule, cls, e.pos, e.st, "%s: the binder runs %d times", cls, len(e.st.auto["bound"]))
				continue
			}
			v := e.vals[0]
			if v != last && !(v.isNil() && last != nil && it.nilness(e.st, last) == 1) {
				r.fail(rule, cls, e.pos, e.st, "%s returns %s instead of the binder's error", fn.Name(), v)
			}
		}
		r.absorb(it, fn.Name())
	}
	for _, m := range methods {
		for _, ct := range mediaTypes {
			cls := m + " " + ct
			one("bind", cls, expectedBinder(m, ct), bind, func(it *Interp, st *State, args []*Expr) {
				mv := it.symStr(st, "method", m, verbs)
				cv := it.symStr(st, "contentType", ct, mediaTypes)
				rt := fieldType(p, "Request")
				req := it.load(st, it.fieldAddr(args[0], "Request", pointerTo(rt)), rt)
				st.facts[it.in.eq(req, it.in.zero(req.Typ))] = false
				st.mem[it.fieldAddr(req, "Method", pointerTo(types.Typ[types.String]))] = mv
				it.hooks.Override = func(s *State, ev *CallEv) (*Expr, bool) {
					if ev.Fn == ctOf && len(ev.Args) == 1 && ev.Args[0] == args[0] {
						return cv, true
					}
					return nil, false
				}
			})
		}
	}
	for _, b := range []string{"JSON", "XML", "Form", "FormMultipart", "Query", "Header"} {
		g := p.binding.Members[b].(*ssa.Global)
		one("bindwith", b, b, with, func(it *Interp, st *State, args []*Expr) {
			v := it.load(st, it.in.mk(Expr{Op: OpGlobal, Glob: g, Typ: g.Type()}), derefT(g.Type()))
			args[2] = it.in.mk(Expr{Op: OpIface, Args: []*Expr{v}, Typ: args[2].Typ})
		})
	}
}

// neither reports whether x is known to be neither a space nor a semicolon.
func (it *Interp) neither(s *State, x *Expr) bool {
	for _, c := range []int64{' ', ';'} {
		if it.truth(s, it.in.eq(x, it.in.constOf(constant.MakeInt64(c), x.Typ))) != -1 {
			return false
		}
	}
	return true
}

func (it *Interp) isEither(s *State, x *Expr) bool {
	for _, c := range []int64{' ', ';'} {
		if it.truth(s, it.in.eq(x, it.in.constOf(constant.MakeInt64(c), x.Typ))) == 1 {
			return true
		}
	}
	return false
}

func c21ContentType(p *Program, r *Report, fn *ssa.Function) {
	it := newInterp(p)
	st := it.initial()
	args := it.Params(fn)
	st.facts[it.in.eq(args[0], it.in.zero(args[0].Typ))] = false
	isHdr := func(e *Expr) bool {
		n, ok := hdrName(e)
		return ok && n == "Content-Type"
	}
	// the characters of the header read in the loop, with their position
	chars := func() (out [][2]*Expr) {
		for _, x := range it.in.byID {
			switch {
			case x.Op == OpRes && x.Name == "next.r":
				for _, c := range append([]*Expr{x.Args[0]}, it.in.alternatives(x.Args[0])...) {
					if c.Op == OpRes && c.Name == "range" && isHdr(c.Args[0]) {
						var i *Expr
						for _, y := range it.in.byID {
							if y.Op == OpRes && y.Name == "next.i" && y.Tag == x.Tag && y.Args[0] == x.Args[0] {
								i = y
							}
						}
						out = append(out, [2]*Expr{x, i})
					}
				}
			case x.Op == OpIndex && isHdr(x.Args[0]):
				out = append(out, [2]*Expr{x, x.Args[1]})
			}
		}
		return
	}
	looped := false
	it.hooks.Arrive = func(s *State, fr *Frame, blk *ssa.BasicBlock, back bool) {
		looped = true
		if !back {
			return
		}
		for _, c := range chars() {
			if it.neither(s, c[0]) {
				if c[0].Op == OpRes {
					return
				}
				// an index loop must go on with the next character
				for _, in := range blk.Instrs {
					if ph, ok := in.(*ssa.Phi); ok && isInteger(ph.Type()) {
						if v := s.env[envKey{fr.id, ph}]; v != nil && v == it.in.addc(c[1], 1) {
							return
						}
					}
				}
			}
		}
		r.fail("media-type", "scan", token.NoPos, s, "a character that may be a space or a semicolon is passed over")
	}
	for _, e := range it.startWith(fn, st, args) {
		if e.panic {
			r.fail("media-type", "panic", e.pos, e.st, "ContentType panics")
			continue
		}
		v := e.vals[0]
		r.ok("media-type", v.String()+itoa(len(e.st.facts)))
		w := strip(v)
		if w.Op == OpCall && w.Name == "strings.TrimSpace" {
			w = w.Args[0]
		}
		good := false
		switch {
		case isHdr(w):
			// whole header: nothing to cut was found
			for _, x := range it.in.byID {
				if x.Op == OpRes && x.Name == "next.ok" && it.truth(e.st, x) == -1 {
					good = true
				}
				if x.Op == OpCall && strings.HasPrefix(x.Name, "strings.Index") && isHdr(x.Args[0]) && it.truth(e.st, it.in.lss(x, it.in.intc(0))) == 1 {
					if c, ok := x.Args[1].constStr(); ok && (c == ";" || c == " ;" || c == "; ") {
						good = true
					}
				}
			}
			for f, b := range e.st.facts {
				// i < len(header) is known false
				if !b && f.Op == OpBin && f.Name == "<" && f.Args[1].Op == OpLen && isHdr(f.Args[1].Args[0]) {
					good = true
				}
			}
			if c := it.empty(e.st, w); c == 1 {
				good = true
			}
		case w.Op == OpSlice && isHdr(w.Args[0]) && w.Args[1] == nil && w.Args[2] != nil:
			hi := w.Args[2]
			for _, c := range chars() {
				if c[1] == hi && it.isEither(e.st, c[0]) && looped {
					good = true
				}
			}
			if hi.Op == OpCall && strings.HasPrefix(hi.Name, "strings.Index") && isHdr(hi.Args[0]) {
				if c, ok := hi.Args[1].constStr(); ok && (c == ";" || c == " ;" || c == "; ") {
					good = true
				}
				if c, ok := hi.Args[1].constInt(); ok && c == ';' {
					good = true
				}
			}
		default:
			if l, ok := elem0(w); ok && l.Op == OpCall && strings.HasPrefix(l.Name, "strings.Split") && isHdr(l.Args[0]) {
				if c, ok := l.Args[1].constStr(); ok && c == ";" {
					good = true
				}
			}
		}
		if !good {
			r.fail("media-type", "result", e.pos, e.st, "the media type is %s, not the request's content type without parameters", v)
		}
	}
	r.absorb(it, "ContentType")
}

func c28(p *Program, r *Report) {
	parse := p.method(p.water, "Context", "ParseFormOrMultipartForm")
	handler := p.method(p.water, "Router", "Handler")
	with := p.fn(p.water, "WithMaxMultipartMemory")
	if parse == nil || handler == nil || with == nil {
		r.missing("ParseFormOrMultipartForm, Router.Handler, WithMaxMultipartMemory")
		return
	}
	flag := p.parsedFlag(parse)
	if flag == "" {
		r.missing("context field recording that the form was parsed")
		return
	}
	boolT := types.Typ[types.Bool]
	limits := map[*ssa.Global]bool{}
	var optField string // option field holding the limit
	var optType types.Type
	// WithMaxMultipartMemory
	{
		it := newInterp(p)
		st := it.initial()
		args := it.Params(with)
		for _, e := range it.startWith(with, st, args) {
			if e.panic || len(e.vals) != 1 {
				r.fail("option", "WithMaxMultipartMemory", e.pos, e.st, "WithMaxMultipartMemory panics")
				continue
			}
			cl := strip(e.vals[0])
			sig, ok := cl.Typ.Underlying().(*types.Signature)
			if !ok || cl.Op != OpClosure {
				r.fail("option", "WithMaxMultipartMemory", e.pos, e.st, "the option is %s", cl)
				continue
			}
			o := it.param("options", sig.Params().At(0).Type())
			e.st.facts[it.in.eq(o, it.in.zero(o.Typ))] = false
			optType = derefT(o.Typ)
			for _, x := range it.RunValue(cl, e.st, []*Expr{o}) {
				r.ok("option", "WithMaxMultipartMemory")
				n := ""
				for c, v := range x.st.mem {
					if c.Op == OpFieldAddr && c.Args[0] == o && v == args[0] {
						n = c.Name
					}
				}
				if n == "" || x.panic {
					r.fail("option", "WithMaxMultipartMemory", x.pos, x.st, "the option does not record the limit it is given")
				}
				optField = n
			}
		}
		r.absorb(it, "WithMaxMultipartMemory")
	}
	if optField == "" {
		return
	}
	limitOf := func(pos token.Pos, s *State, who string, v *Expr) {
		v = strip(v)
		if v.Op == OpInit && v.Args[0].Op == OpGlobal {
			limits[v.Args[0].Glob] = true
			r.ok("limit", who)
			return
		}
		if v.Op == OpInit && v.Args[0].Op == OpFieldAddr && v.Args[0].Name == optField && types.Identical(derefT(v.Args[0].Args[0].Typ), optType) {
			r.ok("limit", who)
			return
		}
		r.fail("limit", who, pos, s, "%s parses with limit %s, which is not the configured one", who, v)
	}
	isPM := func(ev *CallEv) bool {
		return ev.Kind != "defer-stmt" && ev.Name == "(*net/http.Request).ParseMultipartForm"
	}
	for _, m := range append([]string{"?other"}, verbs...) {
		for _, done := range []bool{false, true} {
			it := newInterp(p)
			st := it.initial()
			args := it.Params(parse)
			ctx := args[0]
			st.facts[it.in.eq(ctx, it.in.zero(ctx.Typ))] = false
			rt := fieldType(p, "Request")
			req := it.load(st, it.fieldAddr(ctx, "Request", pointerTo(rt)), rt)
			st.facts[it.in.eq(req, it.in.zero(req.Typ))] = false
			st.mem[it.fieldAddr(req, "Method", pointerTo(types.Typ[types.String]))] = it.symStr(st, "method", m, verbs)
			fa := it.fieldAddr(ctx, flag, pointerTo(boolT))
			st.mem[fa] = it.in.boolc(done)
			upload := m == "POST" || m == "PUT" || m == "PATCH"
			cls := m
			// whether the content type is known to be multipart: 1, -1, 0
			multi := func(s *State) int {
				for f, v := range s.facts {
					hdr, c := false, false
					it.in.walk(f, func(x *Expr) bool {
						if n, ok := hdrName(x); ok && n == "Content-Type" {
							hdr = true
						}
						if k, ok := x.constStr(); ok && k == mtMulti {
							c = true
						}
						return true
					})
					if hdr && c {
						if f.Op == OpBin && isInteger(f.Args[0].Typ) {
							// a position
							k, ok := f.Args[1].constInt()
							if !ok || f.Args[0].Op != OpCall || !(f.Name == "<" && k == 0 || f.Name == "==" && k == -1) {
								continue
							}
							v = !v
						}
						return b2i(v)
					}
				}
				return 0
			}
			it.hooks.Call = func(s *State, ev *CallEv) {
				pf := ev.Kind != "defer-stmt" && ev.Name == "(*net/http.Request).ParseForm"
				if !pf && !isPM(ev) {
					return
				}
				if done {
					r.fail("parse", "again", ev.Pos, s, "the form is parsed again although it was parsed before")
					return
				}
				if s.auto["p"] != "" {
					r.fail("parse", "twice", ev.Pos, s, "the form is parsed twice")
				}
				s.auto["p"] = "1"
				if ev.Args[0] != req && !it.isCtxRequest(ev.Args[0], ctx) {
					r.fail("parse", "request", ev.Pos, s, "the form of %s is parsed, not the context's request", ev.Args[0])
				}
				if isPM(ev) {
					limitOf(ev.Pos, s, "Context", ev.Args[1])
					if !upload || multi(s) != 1 {
						r.fail("parse", cls, ev.Pos, s, "a %s request whose content type may not be multipart is parsed as multipart", m)
					}
				} else if upload && multi(s) != -1 {
					r.fail("parse", cls, ev.Pos, s, "a %s request that may be multipart is parsed as an ordinary form", m)
				}
			}
			var errs []*Expr
			it.hooks.After = func(s *State, ev *CallEv, res *Expr) {
				if strings.HasPrefix(ev.Name, "(*net/http.Request).Parse") {
					errs = append(errs, res)
					s.push("errs", res)
				}
			}
			for _, e := range it.startWith(parse, st, args) {
				r.ok("parse", m+map[bool]string{true: " parsed"}[done]+itoa(len(e.st.facts)))
				if done {
					if e.panic {
						r.fail("parse", "again", e.pos, e.st, "panics although the form was parsed before")
					}
					continue
				}
				if e.st.auto["p"] == "" {
					r.fail("parse", cls, e.pos, e.st, "the form of a %s request is not parsed", m)
					continue
				}
				if v := it.load(e.st, fa, boolT); it.truth(e.st, v) != 1 && !e.panic {
					r.fail("parse", "flag", e.pos, e.st, "the form is not marked as parsed")
				}
				for _, x := range e.st.lists["errs"] {
					n := it.nilness(e.st, x)
					if !e.panic && n != 1 {
						r.fail("parse", "error", e.pos, e.st, "a parse failure may be ignored")
					}
					if e.panic && n != -1 {
						r.fail("parse", "error", e.pos, e.st, "a panic is raised although parsing may have succeeded")
					}
				}
			}
			r.absorb(it, "ParseFormOrMultipartForm")
		}
	}
	// the multipart binder
	if g, ok := p.binding.Members["FormMultipart"].(*ssa.Global); ok {
		for _, f := range p.Funcs() {
			if f.Pkg != p.binding || f.Signature.Recv() == nil || f.Synthetic != "" || !types.Identical(f.Signature.Recv().Type(), derefT(g.Type())) || !strings.HasPrefix(f.Name(), "Bind") {
				continue
			}
			it := newInterp(p)
			st := it.initial()
			args := it.Params(f)
			name := p.fnName(f)
			seen := false
			it.hooks.Opaque = func(g *ssa.Function, ev *CallEv) bool { return !callsAny(p, g, "ParseMultipartForm", 4) }
			it.hooks.Call = func(s *State, ev *CallEv) {
				if isPM(ev) {
					seen = true
					limitOf(ev.Pos, s, name, ev.Args[1])
				}
			}
			it.startWith(f, st, args)
			if !seen {
				r.fail("limit", name, f.Pos(), nil, "%s does not parse the multipart form", name)
			}
			r.absorb(it, name)
		}
	} else {
		r.missing("binding.FormMultipart")
	}
	c28implicit(p, r, limitOf, isPM)
	c28handler(p, r, handler, limits, optType, optField)
}

// c28implicit looks at the other readers of the request's form: net/http
// parses a form that was not parsed yet with a limit of its own.
func c28implicit(p *Program, r *Report, limitOf func(token.Pos, *State, string, *Expr), isPM func(*CallEv) bool) {
	readers := map[string]bool{"FormFile": true, "FormValue": true, "PostFormValue": true}
	isReader := func(g *ssa.Function) bool {
		return g != nil && readers[g.Name()] && g.Signature.Recv() != nil && strings.HasPrefix(g.String(), "(*net/http.Request).")
	}
	for _, f := range p.Funcs() {
		if f.Pkg != p.water && f.Pkg != p.binding || f.Synthetic != "" || f.Parent() != nil {
			continue
		}
		reads := false
		for _, b := range f.Blocks {
			for _, x := range b.Instrs {
				if c, ok := x.(ssa.CallInstruction); ok && isReader(c.Common().StaticCallee()) {
					reads = true
				}
			}
		}
		if !reads {
			continue
		}
		name := p.fnName(f)
		it := newInterp(p)
		st := it.initial()
		args := it.Params(f)
		if f.Signature.Recv() != nil && isPtr(args[0].Typ) {
			st.facts[it.in.eq(args[0], it.in.zero(args[0].Typ))] = false
		}
		it.hooks.Call = func(s *State, ev *CallEv) {
			if ev.Kind == "defer-stmt" {
				return
			}
			if isPM(ev) {
				s.auto["pm:"+ev.Args[0].String()] = "1"
				limitOf(ev.Pos, s, name, ev.Args[1])
				return
			}
			if !strings.HasPrefix(ev.Name, "(*net/http.Request).") || !readers[strings.TrimPrefix(ev.Name, "(*net/http.Request).")] {
				return
			}
			r.ok("limit", name)
			req := ev.Args[0]
			if s.auto["pm:"+req.String()] != "" {
				return
			}
			if mf := it.load(s, it.fieldAddr(req, "MultipartForm", pointerTo(fieldOfStruct(derefT(req.Typ), "MultipartForm"))), fieldOfStruct(derefT(req.Typ), "MultipartForm")); it.nilness(s, mf) == -1 {
				return
			}
			r.fail("limit", name+" implicit", ev.Pos, s, "%s lets net/http parse the form, with net/http's own limit and not the configured one", name)
		}
		it.startWith(f, st, args)
		r.absorb(it, name)
	}
}

// callsAny reports whether f calls a method of that name, directly or through
// module functions.
func callsAny(p *Program, f *ssa.Function, name string, depth int) bool {
	if f == nil || depth == 0 {
		return false
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			c, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			g := c.Common().StaticCallee()
			if g != nil && g.Name() == name {
				return true
			}
			if g != nil && p.inModule(g) && callsAny(p, g, name, depth-1) {
				return true
			}
		}
	}
	return false
}

// writesAny reports whether f stores to one of the globals or to the option
// field, directly or through module functions.
func writesAny(p *Program, f *ssa.Function, limits map[*ssa.Global]bool, optType types.Type, optField string, seen map[*ssa.Function]bool) bool {
	if f == nil || seen[f] || !p.inModule(f) {
		return false
	}
	seen[f] = true
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Store:
				if g, ok := x.Addr.(*ssa.Global); ok && limits[g] {
					return true
				}
				if fa, ok := x.Addr.(*ssa.FieldAddr); ok && types.Identical(derefT(fa.X.Type()), optType) {
					return true
				}
			case ssa.CallInstruction:
				if writesAny(p, x.Common().StaticCallee(), limits, optType, optField, seen) {
					return true
				}
				// dynamic call of an option
				if sig, ok := x.Common().Value.Type().Underlying().(*types.Signature); ok && x.Common().StaticCallee() == nil && !x.Common().IsInvoke() {
					if sig.Params().Len() == 1 && types.Identical(derefT(sig.Params().At(0).Type()), optType) {
						return true
					}
				}
			}
		}
	}
	return false
}

func c28handler(p *Program, r *Report, handler *ssa.Function, limits map[*ssa.Global]bool, optType types.Type, optField string) {
	// nobody else stores to the limits
	reach := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if f == nil || reach[f] || !p.inModule(f) {
			return
		}
		reach[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					visit(c.Common().StaticCallee())
				}
			}
		}
	}
	visit(handler)
	for _, f := range p.Funcs() {
		if p.isInit(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				g, ok := st.Addr.(*ssa.Global)
				if !ok || !limits[g] {
					continue
				}
				if reach[f] {
					continue
				}
				r.fail("limit-store", p.fnName(f), st.Pos(), nil, "%s changes the limit %s outside of building an engine", p.fnName(f), g.Name())
			}
		}
	}
	it := newInterp(p)
	st := it.initial()
	args := it.Params(handler)
	st.facts[it.in.eq(args[0], it.in.zero(args[0].Typ))] = false
	isOpt := func(ev *CallEv) *Expr {
		if ev.Name == "" && ev.Callee != nil && len(ev.Args) == 1 && types.Identical(derefT(ev.Args[0].Typ), optType) {
			return ev.Args[0]
		}
		return nil
	}
	limT := types.Typ[types.Int64]
	if s, ok := optType.Underlying().(*types.Struct); ok {
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() == optField && isInteger(s.Field(i).Type()) {
				limT, _ = s.Field(i).Type().Underlying().(*types.Basic)
			}
		}
	}
	it.hooks.Override = func(s *State, ev *CallEv) (*Expr, bool) {
		if ev.Fn == nil || ev.Fn == handler || ev.Kind == "defer-stmt" {
			return nil, false
		}
		if writesAny(p, ev.Fn, limits, optType, optField, map[*ssa.Function]bool{}) {
			return nil, false
		}
		sig := ev.Fn.Signature
		var t types.Type
		switch sig.Results().Len() {
		case 0:
			return it.in.mk(Expr{Op: OpTuple, Typ: sig.Results()}), true
		case 1:
			t = sig.Results().At(0).Type()
		default:
			t = sig.Results()
		}
		x := it.in.mk(Expr{Op: OpRes, Name: ev.Name, Tag: it.in.site(ev.Fr.id, ev.Instr, "result"), Typ: t})
		if derefT(t) != nil {
			s.facts[it.in.eq(x, it.in.zero(t))] = false
		}
		return x, true
	}
	it.hooks.Call = func(s *State, ev *CallEv) {
		o := isOpt(ev)
		if o == nil {
			return
		}
		if s.auto["opt"] == "" {
			v := it.load(s, it.fieldAddr(o, optField, pointerTo(limT)), limT)
			if n, ok := v.constInt(); !ok || n != 32<<20 {
				r.fail("default", "Handler", ev.Pos, s, "the limit before any option is applied is %s instead of 32 MiB", v)
			}
		}
		s.auto["opt"] = "1"
	}
	it.hooks.Store = func(s *State, fr *Frame, addr, val *Expr, in ssa.Instruction) {
		if addr.Op == OpFieldAddr && addr.Name == optField && types.Identical(derefT(addr.Args[0].Typ), optType) && s.auto["opt"] != "" {
			r.fail("overridden", "Handler", instrPos(in), s, "the limit is changed to %s after the options were applied", val)
		}
	}
	for _, e := range it.startWith(handler, st, args) {
		if e.panic {
			continue
		}
		r.ok("handler", "Handler")
		// the options object of the engine
		var o *Expr
		for c, v := range e.st.mem {
			if c.Op == OpFieldAddr && types.Identical(derefT(c.Args[0].Typ), p.role.engine) && types.Identical(derefT(v.Typ), optType) {
				o = v
			}
		}
		if o == nil {
			r.fail("handler", "options", e.pos, e.st, "the engine's options are not set")
			continue
		}
		cur := it.load(e.st, it.fieldAddr(o, optField, pointerTo(limT)), limT)
		if e.st.auto["opt"] == "" {
			if n, ok := cur.constInt(); !ok || n != 32<<20 {
				r.fail("default", "Handler", e.pos, e.st, "the limit of an engine without options is %s instead of 32 MiB", cur)
			}
		}
		for g := range limits {
			ga := it.in.mk(Expr{Op: OpGlobal, Glob: g, Typ: g.Type()})
			v := it.load(e.st, ga, derefT(g.Type()))
			if stripConv(v) != stripConv(cur) {
				r.fail("applied", g.Pkg.Pkg.Name()+"."+g.Name(), e.pos, e.st, "the configured limit %s does not reach %s, which is %s", cur, g.Name(), v)
			}
		}
	}
	r.absorb(it, "Handler")
}
