package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// mwRun interprets a middleware constructor and every handler it returns. The
// rest of the chain (Next) is opaque: it may change whatever it can reach.
type mwRun struct {
	p    *Program
	r    *Report
	it   *Interp
	ctor *ssa.Function
	name string
	args []*Expr // of the constructor
	ctx  *Expr
	// cells made by the constructor that the handler itself changes: later
	// requests find anything there
	shared map[*Expr]bool
	init   func(s *State) // prepares the constructor's state
}

func newMW(p *Program, r *Report, name string) *mwRun {
	m := &mwRun{p: p, r: r, it: newInterp(p), name: name, ctor: p.fn(p.water, name), shared: map[*Expr]bool{}}
	if m.ctor == nil {
		r.missing("constructor " + name)
		return nil
	}
	m.it.hooks.Opaque = func(f *ssa.Function, ev *CallEv) bool { return f == p.role.next || f == p.role.match }
	return m
}

// run calls start before each handler is analysed and returns its exits.
func (m *mwRun) run(start func(s *State)) []exit {
	it := m.it
	m.args = it.Params(m.ctor)
	m.ctx = it.param("ctx", pointerTo(m.p.role.ctx))
	handlerPhase := false
	st0 := it.hooks.Store
	made := map[*Expr]bool{}
	it.hooks.Store = func(s *State, fr *Frame, a, v *Expr, in ssa.Instruction) {
		if handlerPhase {
			if r := addrRoot(a); made[r] {
				m.shared[r] = true
			}
			if st0 != nil {
				st0(s, fr, a, v, in)
			}
		}
	}
	n := it.hooks
	ctorArrive := it.hooks.Arrive
	var out []exit
	for round := 0; ; round++ {
		handlerPhase = false
		it.hooks = Hooks{Opaque: n.Opaque, Store: n.Store, Arrive: ctorArrive, Branch: func(s *State, fr *Frame, c *Expr, taken bool, br ssa.Instruction) {
			// constructor paths stay apart
			if b := br.Block(); len(it.enclosing(fr.fn, b)) == 0 && !loopHeads(fr.fn)[b] {
				s.auto["ctor"+m.p.pos(instrPos(br))] = fmt.Sprint(taken)
			}
		}}
		before := len(m.shared)
		st := it.initial()
		if m.init != nil {
			m.init(st)
		}
		ctor := it.startWith(m.ctor, st, m.args)
		it.hooks = n
		out = nil
		for _, e := range ctor {
			if e.panic || len(e.vals) != 1 {
				continue
			}
			h := strip(e.vals[0])
			if h.Op == OpIface {
				h = strip(h.Args[0])
			}
			for c := range e.st.mem {
				if r := addrRoot(c); r.Op == OpAlloc || r.Op == OpMake {
					made[r] = true
				}
			}
			s := e.st
			for r := range m.shared {
				it.havoc(s, r, "shared"+itoa(r.ID))
			}
			s.facts[it.in.eq(m.ctx, it.in.zero(m.ctx.Typ))] = false
			req := it.load(s, it.fieldAddr(m.ctx, m.reqField(), nil), fieldType(m.p, m.reqField()))
			s.facts[it.in.eq(req, it.in.zero(req.Typ))] = false
			handlerPhase = true
			if start != nil {
				start(s)
			}
			out = append(out, it.RunValue(h, s, []*Expr{m.ctx})...)
			handlerPhase = false
		}
		if len(m.shared) == before || round > 4 {
			break
		}
	}
	if len(out) == 0 {
		m.r.missing("handler returned by " + m.name)
	}
	it.hooks = n
	m.r.absorb(it, m.name)
	return out
}

func (m *mwRun) reqField() string {
	for i := 0; i < m.p.role.ctxFields.NumFields(); i++ {
		if f := m.p.role.ctxFields.Field(i); typeKey(derefT(f.Type())) == "net/http.Request" {
			return f.Name()
		}
	}
	return "Request"
}

func (m *mwRun) field(s *State, f string) *Expr {
	t := fieldType(m.p, f)
	return m.it.load(s, m.it.fieldAddr(m.ctx, f, pointerTo(t)), t)
}

func (m *mwRun) global(s *State, name string) *Expr {
	g, ok := m.p.water.Members[name].(*ssa.Global)
	if !ok {
		return nil
	}
	return m.it.load(s, m.it.in.mk(Expr{Op: OpGlobal, Glob: g, Typ: g.Type()}), derefT(g.Type()))
}

func (m *mwRun) isNext(ev *CallEv) bool { return ev.Fn == m.p.role.next && ev.Kind != "defer-stmt" }

// rawSend recognises a send on the underlying writer.
func (m *mwRun) rawSend(ev *CallEv) string {
	if ev.Kind != "defer-stmt" && ev.Invoke && len(ev.Args) > 0 && m.it.isRaw(ev.Args[0]) && ev.Method != "Header" {
		return ev.Method
	}
	return ""
}

// isLog recognises a call into a logging package.
func isLog(ev *CallEv) bool {
	if ev.Fn != nil && !ev.Cut || ev.Kind == "defer-stmt" {
		return false
	}
	pk := pkgOf(ev.Name)
	if ev.Invoke && pk == "" {
		pk = ev.Name
	}
	return strings.Contains(strings.ToLower(pk[strings.LastIndex(pk, "/")+1:]), "log")
}

// headerWrite recognises a change of a response header; vals are the values.
func (it *Interp) headerWrite(ev *CallEv) (key *Expr, vals []*Expr, op string) {
	if ev.Kind == "defer-stmt" || len(ev.Args) < 2 || !it.isRespHeader(ev.Args[0]) {
		return nil, nil, ""
	}
	switch ev.Name {
	case "(net/http.Header).Set", "(net/http.Header).Add", "(net/http.Header).Del":
		return ev.Args[1], ev.Args[2:], ev.Name[len("(net/http.Header)."):]
	}
	return nil, nil, ""
}

func init() {
	register("C14", "Recovery and the handler it returns are interpreted with the rest of the chain opaque, once returning and once panicking. After a panic no exit may propagate it, the context must be known written, "+
		"the only head sent is 500 under a flag known clear, the panic value must reach a logging call, and values derived from it or from the stack may reach the response only where the running status is known not to be stable. "+
		"Without a panic a 200 head must go out exactly when nothing was written.",
		map[string]int{"panic-exit": 1, "normal-exit": 1, "head": 1, "log": 1}, c14)
}

func c14(p *Program, r *Report) {
	m := newMW(p, r, "Recovery")
	if m == nil {
		return
	}
	it := m.it
	stable, ok := p.water.Members["Stable"].(*ssa.NamedConst)
	if !ok || p.water.Members["Status"] == nil {
		r.missing("constant Stable and variable Status")
		return
	}
	isStack := func(e *Expr) bool {
		if e.Op != OpRes && e.Op != OpCall {
			return false
		}
		return strings.HasPrefix(e.Name, "runtime.") || strings.HasPrefix(e.Name, "runtime/debug.") || strings.HasPrefix(e.Name, "(*runtime.")
	}
	it.nilPanics = true // panic(nil), before go 1.21
	isPanic := func(e *Expr) bool { return e.Op == OpSym && strings.HasPrefix(e.Name, "panic@") }
	// the panic value is known to be nil: there is nothing to log of it
	wasNil := func(s *State) bool {
		for f, v := range s.facts {
			if v && f.Op == OpBin && f.Name == "==" && isPanic(f.Args[0]) && f.Args[1].isNil() {
				return true
			}
		}
		return false
	}
	secret := func(s *State, e *Expr) bool {
		return it.in.mentions(e, isPanic) || it.in.mentions(e, isStack) || it.reaches(s, e, func(x *Expr) bool { return it.in.mentions(x, isPanic) || it.in.mentions(x, isStack) })
	}
	devel := func(s *State) bool {
		st := m.global(s, "Status")
		return it.truth(s, it.in.eq(st, it.in.constOf(stable.Value.Value, st.Typ))) == -1
	}
	leak := func(s *State, e *Expr, pos token.Pos, where string) {
		if secret(s, e) {
			r.ok("leak-gate", where+p.pos(pos))
			if !devel(s) {
				r.fail("leak", where, pos, s, "details of the panic reach the client (%s) although the running status may be stable", where)
			}
		}
	}
	it.hooks.PanicEdge = func(s *State, ev *CallEv) bool {
		if m.isNext(ev) {
			s.auto["next"] += "1"
			return true
		}
		return false
	}
	it.hooks.Store = func(s *State, fr *Frame, a, v *Expr, in ssa.Instruction) {
		if a.Op == OpFieldAddr && p.isCtxPtr(a.Args[0]) && a.Name == p.role.written {
			if len(s.lists["old"]) == 0 && s.auto["next"] != "" {
				s.lists["old"] = []*Expr{m.field(s, p.role.written)}
			}
		}
	}
	it.hooks.MapUpdate = func(s *State, fr *Frame, mp, k, v *Expr, in ssa.Instruction) {
		if it.isRespHeader(mp) && v != nil {
			leak(s, v, instrPos(in), "a response header")
		}
	}
	it.hooks.Call = func(s *State, ev *CallEv) {
		if m.isNext(ev) {
			if s.auto["next"] != "" {
				r.fail("chain", "twice", ev.Pos, s, "the rest of the chain is started twice")
			}
			if s.auto["sent"] != "" {
				r.fail("chain", "late", ev.Pos, s, "a head is sent before the rest of the chain ran")
			}
			return
		}
		if _, vals, op := it.headerWrite(ev); op != "" {
			for _, v := range vals {
				leak(s, v, ev.Pos, "a response header")
			}
			return
		}
		switch m.rawSend(ev) {
		case "":
		case "WriteHeader":
			r.ok("head", p.pos(ev.Pos)+s.auto["next"])
			w := m.field(s, p.role.written)
			if l := s.lists["old"]; len(l) > 0 {
				w = l[0]
			}
			if it.truth(s, w) != -1 {
				r.fail("second-head", s.auto["normal"], ev.Pos, s, "a head is sent although the response may already have been started")
			}
			s.auto["sent"] = "1"
			s.lists["code"] = []*Expr{ev.Args[1]}
			return
		default:
			for _, a := range ev.Args[1:] {
				leak(s, a, ev.Pos, "the response body")
			}
			return
		}
		if isLog(ev) {
			for _, a := range ev.Args {
				if it.in.mentions(it.snapshot(s, a), isPanic) || wasNil(s) {
					s.auto["logged"] = "1"
					r.ok("log", p.pos(ev.Pos))
				}
			}
			return
		}
		if ev.Fn != nil && !ev.Cut {
			return
		}
		// outside code that gets both the context and the details
		toCtx := false
		for _, a := range ev.Args {
			toCtx = toCtx || it.reaches(s, a, func(e *Expr) bool { return e == m.ctx || it.isRaw(e) })
		}
		if toCtx && !strings.Contains(ev.Name, ".New") {
			for _, a := range ev.Args {
				leak(s, it.snapshot(s, a), ev.Pos, ev.Name)
			}
		}
	}
	// the written flag when the chain ended
	it.hooks.After = func(s *State, ev *CallEv, res *Expr) {
		if m.isNext(ev) {
			s.auto["next"] = "1"
			s.auto["normal"] = "1"
		}
	}
	for _, e := range m.run(nil) {
		s := e.st
		panicked := s.auto["next"] != "" && s.auto["normal"] == ""
		if s.auto["next"] == "" {
			if !e.panic {
				r.fail("chain", "skipped", e.pos, s, "the rest of the chain is not started")
			}
			continue
		}
		if e.panic {
			r.fail("propagates", "exit", e.pos, s, "a panic leaves the recovery middleware")
			continue
		}
		rule, want := "normal-exit", int64(200)
		if panicked {
			rule, want = "panic-exit", 500
		}
		r.ok(rule, p.pos(e.pos)+s.autoKey())
		if w := m.field(s, p.role.written); it.truth(s, w) != 1 {
			r.fail("unanswered", rule, e.pos, s, "the handler returns (%s) although no response may have been started", rule)
		}
		if l := s.lists["code"]; len(l) > 0 {
			for _, c := range l {
				if k, ok := c.constInt(); !ok || k != want {
					r.fail("status", rule, e.pos, s, "status %s is sent instead of %d", c, want)
				}
			}
		}
		if panicked && s.auto["logged"] == "" {
			r.fail("unlogged", rule, e.pos, s, "the panic is not logged on this path")
		}
	}
}

func init() {
	register("C15", "Logger and the handler it returns are interpreted with the rest of the chain opaque. Where the rest of the chain starts, the request body must denote what was read so far followed by the unread rest of the original body (or the original body untouched), "+
		"no other field of the request or the context may have been changed, nothing may have been sent. Unless logging is switched off, the chain is started exactly once and exactly one logging call follows it, whose arguments carry the status the context holds then. Nothing is logged unless logging is known to be on, and the body is read only when logging of bodies is; what was read is part of what is logged.",
		map[string]int{"next": 1, "log": 1, "exit": 2, "body": 1, "logged-body": 1}, c15)
}

// bodyTrack follows what became of a request body.
type bodyTrack struct {
	m     *mwRun
	it    *Interp
	b0    *Expr
	req   *Expr
	fails func(rule string, pos token.Pos, s *State, format string, a ...any)
}

// readSource resolves the reader a call drains: "all" or "part" of the
// original body, "" when it is something else.
func (b *bodyTrack) readSource(s *State, e *Expr, depth int) string {
	e = stripIface(strip(e))
	if e == nil || depth > 5 {
		return ""
	}
	if e == b.b0 || strip(e) == strip(b.b0) {
		return "all"
	}
	if (e.Op == OpRes || e.Op == OpCall) && e.Name == "io.LimitReader" {
		if b.readSource(s, e.Args[0], depth+1) != "" {
			return "part"
		}
	}
	if e.Op == OpAlloc && typeKey(derefT(e.Typ)) == "io.LimitedReader" {
		t := derefT(e.Typ).Underlying().(*types.Struct).Field(0).Type()
		if b.readSource(s, b.it.load(s, b.it.fieldAddr(e, "R", pointerTo(t)), t), depth+1) != "" {
			return "part"
		}
	}
	if (e.Op == OpRes || e.Op == OpCall) && (e.Name == "io.NopCloser" || e.Name == "io/ioutil.NopCloser" || e.Name == "bufio.NewReader") {
		return b.readSource(s, e.Args[0], depth+1)
	}
	return ""
}

// denote lists what reading e yields: data tokens, the original body ("rest").
func (b *bodyTrack) denote(s *State, e *Expr, depth int) ([]*Expr, string) {
	it := b.it
	for e != nil && (e.Op == OpChange || e.Op == OpIface) {
		e = e.Args[0]
	}
	if e == nil || depth > 8 {
		return nil, "?"
	}
	if e == strip(b.b0) {
		return []*Expr{b.b0}, ""
	}
	switch e.Op {
	case OpRes, OpCall:
		switch e.Name {
		case "io.NopCloser", "io/ioutil.NopCloser", "bufio.NewReader":
			return b.denote(s, e.Args[0], depth+1)
		case "io.TeeReader":
			if w := stripIface(strip(e.Args[1])); w != nil && typeKey(w.Typ) == "*bytes.Buffer" {
				return b.denote(s, e.Args[0], depth+1)
			}
		case "bytes.NewReader", "bytes.NewBuffer", "strings.NewReader", "bytes.NewBufferString":
			return []*Expr{b.data(e.Args[0])}, ""
		case "io.MultiReader":
			l := it.snapshot(s, e.Args[0])
			if l.Op != OpList {
				return nil, "the readers combined are not known: " + l.String()
			}
			var out []*Expr
			for _, a := range l.Args {
				d, bad := b.denote(s, a, depth+1)
				if bad != "" {
					return nil, bad
				}
				out = append(out, d...)
			}
			return out, ""
		}
	case OpAlloc:
		if t := typeKey(derefT(e.Typ)); t == "bytes.Buffer" {
			return []*Expr{b.data(e)}, ""
		}
	}
	// a struct whose Read comes from an embedded field
	t := e.Typ
	ptr := derefT(t) != nil
	if st, ok := deref2(t).Underlying().(*types.Struct); ok {
		obj, idx, _ := types.LookupFieldOrMethod(t, false, nil, "Read")
		if f, ok := obj.(*types.Func); ok && f != nil && len(idx) == 2 {
			fl := st.Field(idx[0])
			var v *Expr
			if ptr {
				v = it.load(s, it.fieldAddr(e, fl.Name(), pointerTo(fl.Type())), fl.Type())
			} else {
				v = it.fieldOf(e, fl.Name(), fl.Type())
			}
			return b.denote(s, v, depth+1)
		}
	}
	return nil, "the body is " + e.String()
}

func deref2(t types.Type) types.Type {
	if d := derefT(t); d != nil {
		return d
	}
	return t
}

// data names the bytes behind e.
func (b *bodyTrack) data(e *Expr) *Expr {
	for e != nil {
		e = stripConv(strip(e))
		if (e.Op == OpRes || e.Op == OpCall) && len(e.Args) == 1 && (e.Name == "(*bytes.Buffer).Bytes" || e.Name == "(*bytes.Buffer).String" || e.Name == "bytes.Clone") {
			e = e.Args[0]
			continue
		}
		if e.Op == OpConv {
			e = e.Args[0]
			continue
		}
		if e.Op == OpSlice && e.Args[1] == nil && e.Args[2] == nil {
			e = e.Args[0]
			continue
		}
		return e
	}
	return e
}

// read notes calls that consume the body; it returns whether ev was one.
func (b *bodyTrack) read(s *State, ev *CallEv, res *Expr) bool {
	switch ev.Name {
	case "io.ReadAll", "io/ioutil.ReadAll":
		switch src := b.readSource(s, ev.Args[0], 0); src {
		case "":
			return false
		default:
			s.push("read", b.it.extract(res, 0, types.NewSlice(types.Typ[types.Byte])))
			s.auto["read"] = src
			s.lists["err"] = []*Expr{b.it.extract(res, 1, types.Universe.Lookup("error").Type())}
			return true
		}
	case "io.Copy", "io.CopyN":
		src := b.readSource(s, ev.Args[1], 0)
		if src == "" {
			return false
		}
		if ev.Name == "io.CopyN" {
			src = "part"
		}
		s.push("read", b.data(stripIface(strip(ev.Args[0]))))
		s.auto["read"] = src
		s.lists["err"] = []*Expr{b.it.extract(res, 1, types.Universe.Lookup("error").Type())}
		return true
	case "(*bytes.Buffer).ReadFrom":
		src := b.readSource(s, ev.Args[1], 0)
		if src == "" {
			return false
		}
		s.push("read", b.data(ev.Args[0]))
		s.auto["read"] = src
		s.lists["err"] = []*Expr{b.it.extract(res, 1, types.Universe.Lookup("error").Type())}
		return true
	}
	return false
}

// check decides whether the body e yields the complete original body.
func (b *bodyTrack) check(s *State, e *Expr) string {
	got, bad := b.denote(s, e, 0)
	if bad != "" {
		return "what later handlers read as the body cannot be traced to the original: " + bad
	}
	want := s.lists["read"]
	if s.auto["altered"] != "" {
		return "the bytes read from the body were altered"
	}
	for i, d := range want {
		if i >= len(got) || got[i] != b.data(d) {
			return "the part of the body that was read is not handed on first"
		}
	}
	got = got[len(want):]
	switch {
	case len(got) == 1 && got[0] == b.b0:
		if s.auto["closed"] != "" {
			return "the body was closed before later handlers read it"
		}
		return ""
	case len(got) == 0 && len(want) > 0 && s.auto["read"] == "all" && b.it.nilness(s, s.lists["err"][0]) == 1:
		return ""
	case len(got) == 0:
		return "the unread rest of the body (it may be longer than what was read, or reading may have failed) is not handed on"
	}
	return "later handlers read something other than the original body"
}

var reqReaders = map[string]bool{
	"(*net/http.Request).Cookie": true, "(*net/http.Request).Cookies": true, "(*net/http.Request).UserAgent": true, "(*net/http.Request).Referer": true,
	"(*net/http.Request).BasicAuth": true, "(*net/http.Request).ProtoAtLeast": true, "(*net/http.Request).Context": true, "(*net/http.Request).Clone": true,
	"(*net/http.Request).WithContext": true, "(*net/http.Request).CookiesNamed": true, "(*net/http.Request).PathValue": true,
}

func c15(p *Program, r *Report) {
	m := newMW(p, r, "Logger")
	if m == nil {
		return
	}
	it := m.it
	fail := func(rule, construct string, pos token.Pos, s *State, format string, a ...any) {
		r.fail(rule, construct, pos, s, format, a...)
	}
	if f := p.water.Func("init"); f != nil {
		for _, blk := range f.Blocks {
			for _, in := range blk.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				if g, ok := st.Addr.(*ssa.Global); ok && g.Name() == "LogClose" {
					if c, ok := st.Val.(*ssa.Const); !ok || c.Value != nil && c.Value.Kind() == constant.Bool && constant.BoolVal(c.Value) {
						fail("switch", "initial", st.Pos(), it.initial(), "logging is switched off from the start")
					}
				}
			}
		}
	}
	rf := m.reqField()
	body := func(s *State) *Expr {
		req := m.field(s, rf)
		t := fieldPtrType(derefT(req.Typ), "Body")
		return it.load(s, it.fieldAddr(req, "Body", t), derefT(t))
	}
	b := &bodyTrack{m: m, it: it}
	isReq := func(e *Expr) bool { return e == b.req }
	it.hooks.Store = func(s *State, fr *Frame, a, v *Expr, in ssa.Instruction) {
		pos := instrPos(in)
		root := addrRoot(a)
		for _, d := range s.lists["read"] {
			if root == b.data(d) || stripConv(root) == b.data(d) {
				s.auto["altered"] = "1"
			}
		}
		if root.Op == OpAlloc || root.Op == OpMake || root.Op == OpGlobal {
			return
		}
		if a.Op == OpFieldAddr && a.Args[0] == b.req && a.Name == "Body" {
			r.ok("body", p.pos(pos))
			return
		}
		old := it.load(s, a, v.Typ)
		if old == v {
			return
		}
		if s.auto["next"] == "" || a.Op == OpFieldAddr && p.isCtxPtr(a.Args[0]) && (a.Name == p.role.written || a.Name == p.role.status) {
			fail("state-changed", a.String(), pos, s, "the logger changes %s", a)
		}
	}
	it.hooks.MapUpdate = func(s *State, fr *Frame, mp, k, v *Expr, in ssa.Instruction) {
		if it.isRespHeader(mp) {
			fail("header", p.fnName(fr.fn), instrPos(in), s, "the logger changes a response header")
			return
		}
		if r0 := addrRoot(mp); mp.Op == OpInit && r0.Op != OpAlloc && s.auto["next"] == "" {
			fail("state-changed", mp.String(), instrPos(in), s, "the logger changes %s", mp)
		}
	}
	it.hooks.Call = func(s *State, ev *CallEv) {
		if ev.Kind == "defer-stmt" {
			return
		}
		if m.isNext(ev) {
			r.ok("next", p.pos(ev.Pos))
			if s.auto["next"] != "" {
				fail("chain", "twice", ev.Pos, s, "the rest of the chain is started twice")
			}
			if m.field(s, rf) != b.req {
				fail("body", "request", ev.Pos, s, "later handlers get another request")
			} else if msg := b.check(s, body(s)); msg != "" {
				fail("body", "next", ev.Pos, s, "%s", msg)
			}
			return
		}
		if _, _, op := it.headerWrite(ev); op != "" {
			fail("header", p.fnName(ev.Fr.fn), ev.Pos, s, "the logger changes a response header")
			return
		}
		if k := m.rawSend(ev); k != "" {
			fail("sends", p.fnName(ev.Fr.fn), ev.Pos, s, "the logger uses %s of the response writer", k)
			return
		}
		if ev.Method == "copy" && ev.Name == "copy" {
			for _, d := range s.lists["read"] {
				if b.data(ev.Args[0]) == b.data(d) {
					s.auto["altered"] = "1"
				}
			}
			return
		}
		if isLog(ev) {
			r.ok("log", p.pos(ev.Pos))
			if off := m.global(s, "LogClose"); off != nil && it.truth(s, off) != -1 {
				fail("switch", "closed", ev.Pos, s, "a request is logged although logging may be switched off")
			}
			switch s.auto["logged"] {
			case "":
				s.auto["logged"] = "1"
			default:
				fail("log-count", "twice", ev.Pos, s, "a request is logged more than once")
			}
			if s.auto["next"] == "" {
				fail("log-order", "early", ev.Pos, s, "the request is logged before the later handlers have run")
				return
			}
			st := m.field(s, p.role.status)
			has := false
			for _, a := range ev.Args {
				has = has || it.in.contains(it.snapshot(s, a), st)
			}
			if ds := s.lists["read"]; len(ds) > 0 {
				r.ok("logged-body", p.pos(ev.Pos))
				shown := false
				for _, a := range ev.Args {
					a := it.snapshot(s, a)
					for _, d := range ds {
						d := b.data(d)
						shown = shown || it.empty(s, d) == 1 || it.in.mentions(a, func(e *Expr) bool {
							if (e.Op == OpRes || e.Op == OpCall) && (e.Name == "(*strings.Builder).String" || e.Name == "(*bytes.Buffer).String" || e.Name == "(*bytes.Buffer).Bytes") {
								return true // put together piece by piece
							}
							return e == d || b.data(e) == d
						})
					}
				}
				if !shown {
					fail("logged-body", "value", ev.Pos, s, "a body that was read for the log does not appear in it")
				}
			}
			if !has {
				fail("log-status", "value", ev.Pos, s, "what is logged does not carry the status the context holds after the later handlers: %s", st)
			}
			return
		}
		if ev.Fn != nil && !ev.Cut {
			return
		}
		if ev.Invoke && len(ev.Args) > 0 && b.b0 != nil && strip(ev.Args[0]) == strip(b.b0) {
			switch {
			case ev.Method == "Close":
				s.auto["closed"] = "1"
			case s.auto["next"] == "":
				fail("body", "method", ev.Pos, s, "the body is consumed by %s without being handed on", ev.Method)
			}
			return
		}
		switch ev.Name {
		case "(net/http.Header).Set", "(net/http.Header).Add", "(net/http.Header).Del":
			fail("state-changed", "header", ev.Pos, s, "the logger changes a header of the request")
			return
		}
		if pure(it, s, ev) || reqReaders[ev.Name] || strings.Contains(ev.Name, ".New") {
			return
		}
		switch ev.Name {
		case "io.ReadAll", "io/ioutil.ReadAll", "io.Copy", "io.CopyN", "(*bytes.Buffer).ReadFrom":
			if b.readSource(s, ev.Args[len(ev.Args)-1], 0) != "" || b.readSource(s, ev.Args[min(1, len(ev.Args)-1)], 0) != "" || b.readSource(s, ev.Args[0], 0) != "" {
				return // followed after the call
			}
		case "io.MultiReader", "io.LimitReader", "io.TeeReader", "io.NopCloser", "io/ioutil.NopCloser":
			return
		}
		for _, a := range ev.Args {
			if it.reaches(s, a, func(e *Expr) bool { return e == m.ctx || it.isRaw(e) }) {
				if strings.HasPrefix(ev.Name, "fmt.Sprint") {
					continue
				}
				fail("sends", ev.Name, ev.Pos, s, "the logger hands the response to %s", ev.Name)
			}
			if s.auto["next"] == "" && it.reaches(s, a, func(e *Expr) bool { return isReq(e) || e == b.b0 }) {
				if strings.HasPrefix(ev.Name, "fmt.Sprint") {
					continue
				}
				fail("body", ev.Name, ev.Pos, s, "the logger hands the request to %s, which may consume its body", ev.Name)
			}
		}
	}
	it.hooks.After = func(s *State, ev *CallEv, res *Expr) {
		if m.isNext(ev) {
			s.auto["next"] = "1"
			return
		}
		if s.auto["next"] == "" {
			if b.read(s, ev, res) {
				r.ok("switch", p.pos(ev.Pos))
				if on := m.global(s, "LogHttpBody"); on != nil && it.truth(s, on) != 1 {
					fail("switch", "body", ev.Pos, s, "the body is read for the log although logging of bodies may be switched off")
				}
			}
		}
	}
	exits := m.run(func(s *State) {
		b.req = m.field(s, rf)
		b.b0 = body(s)
	})
	for _, e := range exits {
		s := e.st
		if e.panic {
			fail("panics", "exit", e.pos, s, "the logger panics")
			continue
		}
		r.ok("exit", p.pos(e.pos)+s.autoKey())
		if off := m.global(s, "LogClose"); off != nil && it.truth(s, off) == 1 {
			continue
		}
		if s.auto["next"] == "" {
			fail("log-order", "no-next", e.pos, s, "the logger returns before the later handlers have run: it cannot log their outcome")
		}
		if s.auto["logged"] == "" {
			fail("log-count", "none", e.pos, s, "a request is not logged on this path")
		}
	}
}

func init() {
	register("C16", "CORS and the handler it returns are interpreted with a symbolic configuration and request. Where the rest of the chain starts (methods known not OPTIONS) or the 204 goes out (known OPTIONS), the allowed origin must be a value known equal to a listed '*' or to the request's origin found in the list, "+
		"or absent only when every listed origin is known to differ from both (an induction over the loop); Vary must name Origin, credentials must be 'true' exactly when configured, and methods, headers, exposed headers and max-age must be the configured ones.",
		map[string]int{"next": 1, "preflight": 1, "origin": 2, "header": 6}, c16)
}

func c16(p *Program, r *Report) {
	m := newMW(p, r, "CORS")
	if m == nil {
		return
	}
	it, in := m.it, m.it.in
	fail := func(rule, construct string, pos token.Pos, s *State, format string, a ...any) {
		r.fail(rule, construct, pos, s, format, a...)
	}
	var cfgP *Expr
	for _, a := range m.ctor.Params {
		if n, ok := a.Type().(*types.Named); ok && n.Obj().Name() == "CORSConfig" {
			cfgP = it.param(m.ctor.Name()+"."+a.Name(), a.Type())
		}
	}
	dg, okd := p.water.Members["DefaultCORSConfig"].(*ssa.Global)
	if cfgP == nil || !okd {
		r.missing("CORSConfig parameter and DefaultCORSConfig")
		return
	}
	ftype := func(name string) types.Type {
		st := cfgP.Typ.Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == name {
				return st.Field(i).Type()
			}
		}
		return nil
	}
	for _, f := range []string{"AllowOrigins", "AllowMethods", "AllowHeaders", "AllowCredentials", "ExposeHeaders", "MaxAge"} {
		if ftype(f) == nil {
			r.missing("CORSConfig." + f)
			return
		}
	}
	cfg := func(name string) *Expr { return it.fieldOf(cfgP, name, ftype(name)) }
	dflt := func(s *State, name string) *Expr {
		g := in.mk(Expr{Op: OpGlobal, Glob: dg, Typ: dg.Type()})
		return it.load(s, it.fieldAddr(g, name, pointerTo(ftype(name))), ftype(name))
	}
	// want is the list in force: the configured one, or the default when known
	// empty
	want := func(s *State, name string) *Expr {
		c := cfg(name)
		switch it.empty(s, c) {
		case -1:
			return c
		case 1:
			return dflt(s, name)
		}
		return nil
	}
	str := func(v string) *Expr { return in.constOf(constant.MakeString(v), types.Typ[types.String]) }
	star := str("*")
	isOrigin := func(e *Expr) bool { n, ok := hdrName(e); return ok && n == "Origin" && strip(e).Op == OpCall }
	// origins known in this analysis
	originExprs := func() []*Expr {
		var out []*Expr
		for _, e := range in.byID {
			if e.Op == OpCall && isOrigin(e) {
				out = append(out, e)
			}
		}
		return out
	}
	key := func(l *Expr, what string) string { return what + "#" + itoa(l.ID) }
	lists := map[*Expr]bool{}
	// elem recognises an element of one of the origin lists.
	elem := func(e *Expr) (list, idx *Expr) {
		if e.Op != OpInit || e.Args[0].Op != OpIndexAddr {
			return nil, nil
		}
		l := stripChange(e.Args[0].Args[0])
		if !lists[l] {
			return nil, nil
		}
		return l, e.Args[0].Args[1]
	}
	differs := func(s *State, e *Expr, what string) bool {
		if what == "star" {
			return it.truth(s, in.eq(e, star)) == -1
		}
		for _, o := range originExprs() {
			if it.truth(s, in.eq(e, o)) == -1 {
				return true
			}
		}
		return false
	}
	// equals: the element is known to be what a match needs.
	equals := func(s *State, e *Expr, what string) bool {
		if what == "star" {
			return it.truth(s, in.eq(e, star)) == 1
		}
		for _, o := range originExprs() {
			if it.truth(s, in.eq(e, o)) == 1 {
				return true
			}
		}
		return false
	}
	// hits remembers that a listed origin was found equal to '*' or to the
	// request's origin.
	hits := func(s *State) {
		for f, v := range s.facts {
			if !v {
				continue
			}
			in.walk(f, func(e *Expr) bool {
				if l, _ := elem(e); l != nil {
					for _, what := range []string{"star", "origin"} {
						if s.auto["hit"+key(l, what)] == "" && equals(s, e, what) {
							s.auto["hit"+key(l, what)] = "1"
						}
					}
				}
				return true
			})
		}
	}
	advance := func(s *State) {
		for _, what := range []string{"star", "origin"} {
			for n := 0; n < 4; n++ {
				moved := false
				for f := range s.facts {
					in.walk(f, func(e *Expr) bool {
						if moved {
							return false
						}
						l, i := elem(e)
						if l == nil {
							return true
						}
						k := s.ghost[key(l, what)]
						if k == nil {
							return true
						}
						if d, ok := it.exact(s, i, k); ok && d == 0 && differs(s, e, what) {
							s.ghost[key(l, what)] = in.addc(i, 1)
							moved = true
						}
						return true
					})
					if moved {
						break
					}
				}
				if !moved {
					break
				}
			}
		}
	}
	noneMatches := func(s *State) string {
		l := want(s, "AllowOrigins")
		if l == nil {
			return "whether origins are configured is not known"
		}
		advance(s)
		for what, say := range map[string]string{"star": "'*'", "origin": "the request's origin"} {
			k := s.ghost[key(l, what)]
			if k == nil || it.truth(s, in.lss(k, in.lenOf(l))) != -1 {
				return "a listed origin may equal " + say
			}
		}
		return ""
	}
	// allowed decides the value v of the allowed-origin header.
	allowed := func(s *State, v *Expr) string {
		v = strip(v)
		if c, ok := v.constStr(); ok && c == "" {
			return noneMatches(s)
		}
		l := want(s, "AllowOrigins")
		if l == nil {
			return "whether origins are configured is not known"
		}
		hits(s)
		// the value is '*' or the request's origin, and the list holds it
		if equals(s, v, "star") || v == star {
			if s.auto["hit"+key(l, "star")] != "" {
				return ""
			}
		}
		if isOrigin(v) || equals(s, v, "origin") {
			if s.auto["hit"+key(l, "origin")] != "" {
				return ""
			}
		}
		return "the value " + v.String() + " is not known to be a listed origin equal to the request's or a listed '*'"
	}
	hname := func(s string) string { return "h:" + canonicalHeader(s) }
	set := func(s *State, k *Expr, vals []*Expr, op string, pos token.Pos) {
		c, ok := k.constStr()
		if !ok {
			fail("header", "name", pos, s, "a response header with an unknown name is set: %s", k)
			return
		}
		h := hname(c)
		if s.auto["next"] != "" || s.auto["head"] != "" {
			fail("header", "late", pos, s, "%s is set after the response may have been sent", c)
			return
		}
		r.ok("header", p.pos(pos)+h)
		switch op {
		case "Del":
			delete(s.lists, h)
		case "Set":
			s.lists[h] = append([]*Expr{}, vals...)
		case "Add":
			s.push(h, vals...)
		}
		s.auto[h] = itoa(len(s.lists[h]))
		if s.auto[h] == "0" {
			delete(s.auto, h)
		}
	}
	get := func(s *State, name string) []*Expr { return s.lists[hname(name)] }
	isJoin := func(v, l *Expr) bool {
		v = strip(v)
		if v.Op != OpCall || v.Name != "strings.Join" || stripChange(v.Args[0]) != l {
			return false
		}
		sep, ok := v.Args[1].constStr()
		return ok && strings.TrimSpace(sep) == ","
	}
	// nothing proves that the list has no elements, or joins to nothing.
	nothing := func(s *State, l *Expr) bool {
		if it.empty(s, l) == 1 {
			return true
		}
		for _, e := range in.byID {
			if isJoin(e, l) && e.Op == OpCall && (it.eqStr(s, e, "") == 1 || it.empty(s, e) == 1) {
				return true
			}
		}
		return false
	}
	isAge := func(v *Expr) bool {
		v = strip(v)
		return v.Op == OpCall && (v.Name == "strconv.Itoa" || v.Name == "strconv.FormatInt" || v.Name == "fmt.Sprint") && stripConv(v.Args[0]) == cfg("MaxAge")
	}
	headers := func(s *State, pos token.Pos, preflight bool) {
		bad := func(name, format string, a ...any) { fail("header", name, pos, s, format, a...) }
		vary := false
		for _, v := range get(s, "Vary") {
			x := it.snapshot(s, v)
			vs := []*Expr{x}
			if x.Op == OpList {
				vs = x.Args
			}
			for _, y := range vs {
				if c, ok := y.constStr(); ok {
					for _, t := range strings.Split(c, ",") {
						vary = vary || strings.EqualFold(strings.TrimSpace(t), "Origin")
					}
				}
			}
		}
		if !vary {
			bad("Vary", "the response does not vary on Origin")
		}
		one := func(name string) (*Expr, bool) {
			l := get(s, name)
			if len(l) == 0 {
				return nil, false
			}
			if len(l) > 1 {
				bad(name, "%s gets several values", name)
			}
			x := it.snapshot(s, l[0])
			if x.Op == OpList && len(x.Args) == 1 {
				x = x.Args[0]
			}
			return x, true
		}
		if v, ok := one("Access-Control-Allow-Origin"); ok {
			r.ok("origin", p.pos(pos)+v.String())
			if msg := allowed(s, v); msg != "" {
				bad("Access-Control-Allow-Origin", "%s", msg)
			}
		} else {
			r.ok("origin", p.pos(pos)+"absent")
			if msg := noneMatches(s); msg != "" {
				bad("Access-Control-Allow-Origin", "no origin is allowed although %s", msg)
			}
		}
		cred := it.truth(s, cfg("AllowCredentials"))
		if v, ok := one("Access-Control-Allow-Credentials"); ok {
			if c, isc := v.constStr(); !isc || c != "true" {
				bad("Access-Control-Allow-Credentials", "the credentials header carries %s", v)
			}
			if cred != 1 {
				bad("Access-Control-Allow-Credentials", "credentials are allowed although the configuration may not say so")
			}
		} else if cred != -1 {
			bad("Access-Control-Allow-Credentials", "credentials are not allowed although the configuration may say so")
		}
		if v, ok := one("Access-Control-Expose-Headers"); ok {
			if !isJoin(v, cfg("ExposeHeaders")) {
				bad("Access-Control-Expose-Headers", "the exposed headers are %s, not the configured ones", v)
			}
		} else if !preflight && !nothing(s, cfg("ExposeHeaders")) {
			bad("Access-Control-Expose-Headers", "the configured exposed headers may be missing")
		}
		if v, ok := one("Access-Control-Allow-Methods"); ok {
			if l := want(s, "AllowMethods"); l == nil || !isJoin(v, l) {
				bad("Access-Control-Allow-Methods", "the allowed methods are %s, not the configured ones", v)
			}
		} else if preflight {
			bad("Access-Control-Allow-Methods", "a preflight is answered without the allowed methods")
		}
		if v, ok := one("Access-Control-Allow-Headers"); ok {
			if !isJoin(v, cfg("AllowHeaders")) {
				if n, isH := hdrName(v); !isH || n != "Access-Control-Request-Headers" {
					bad("Access-Control-Allow-Headers", "the allowed headers are %s", v)
				} else if !nothing(s, cfg("AllowHeaders")) {
					bad("Access-Control-Allow-Headers", "the requested headers are echoed although headers may be configured")
				}
			}
		} else if preflight && !nothing(s, cfg("AllowHeaders")) {
			bad("Access-Control-Allow-Headers", "a preflight is answered without the configured headers")
		}
		pos1 := it.truth(s, in.lss(in.intc(0), cfg("MaxAge")))
		if v, ok := one("Access-Control-Max-Age"); ok {
			if !isAge(v) {
				bad("Access-Control-Max-Age", "max-age is %s, not the configured one", v)
			}
			if pos1 != 1 {
				bad("Access-Control-Max-Age", "max-age is sent although none may be configured")
			}
		} else if preflight && pos1 != -1 {
			bad("Access-Control-Max-Age", "the configured max-age may be missing")
		}
	}
	var method0 *Expr // as the request arrived
	method := func(s *State) int { return it.eqStr(s, method0, "OPTIONS") }
	it.hooks.Arrive = func(s *State, fr *Frame, blk *ssa.BasicBlock, back bool) {
		if back {
			advance(s)
		}
		hits(s)
	}
	it.hooks.MapUpdate = func(s *State, fr *Frame, mp, k, v *Expr, in ssa.Instruction) {
		if it.isRespHeader(mp) {
			if v == nil {
				set(s, k, nil, "Del", instrPos(in))
			} else {
				set(s, k, []*Expr{v}, "Set", instrPos(in))
			}
		}
	}
	it.hooks.Call = func(s *State, ev *CallEv) {
		if ev.Kind == "defer-stmt" {
			return
		}
		if k, vals, op := it.headerWrite(ev); op != "" {
			set(s, k, vals, op, ev.Pos)
			return
		}
		if m.isNext(ev) {
			r.ok("next", p.pos(ev.Pos))
			if s.auto["next"] != "" || s.auto["head"] != "" {
				fail("chain", "again", ev.Pos, s, "the rest of the chain is started after the request was answered or passed on")
			}
			if method(s) != -1 {
				fail("chain", "preflight", ev.Pos, s, "the rest of the chain is started although the method may be OPTIONS")
			}
			headers(s, ev.Pos, false)
			return
		}
		switch m.rawSend(ev) {
		case "":
		case "WriteHeader":
			r.ok("preflight", p.pos(ev.Pos))
			if k, ok := ev.Args[1].constInt(); !ok || k != 204 {
				fail("preflight", "status", ev.Pos, s, "a preflight is answered with %s instead of 204", ev.Args[1])
			}
			if method(s) != 1 {
				fail("preflight", "method", ev.Pos, s, "the middleware answers a request that may not be OPTIONS")
			}
			headers(s, ev.Pos, true)
			s.auto["head"] = "1"
		default:
			if ev.Method == "Write" && it.empty(s, ev.Args[1]) == 1 {
				return
			}
			fail("preflight", "body", ev.Pos, s, "the middleware sends content (%s)", ev.Method)
		}
	}
	it.hooks.After = func(s *State, ev *CallEv, res *Expr) {
		if m.isNext(ev) {
			s.auto["next"] = "1"
		}
	}
	m.init = func(s *State) {
		for _, l := range []*Expr{cfg("AllowOrigins"), dflt(s, "AllowOrigins")} {
			lists[l] = true
			s.ghost[key(l, "star")] = in.intc(0)
			s.ghost[key(l, "origin")] = in.intc(0)
		}
	}
	for _, e := range m.run(func(s *State) {
		req := m.field(s, m.reqField())
		t := fieldPtrType(derefT(req.Typ), "Method")
		method0 = it.load(s, it.fieldAddr(req, "Method", t), derefT(t))
	}) {
		s := e.st
		if e.panic {
			fail("panics", "exit", e.pos, s, "the middleware panics")
			continue
		}
		switch method(s) {
		case 1:
			if it.truth(s, m.field(s, p.role.written)) != 1 {
				fail("preflight", "unanswered", e.pos, s, "a preflight is not answered")
			}
		case -1:
			if s.auto["next"] == "" {
				fail("chain", "dropped", e.pos, s, "the rest of the chain is not started")
			}
		default:
			fail("chain", "method", e.pos, s, "requests are not told apart by their method")
		}
	}
}
