package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// headProto interprets one root and checks the protocol of the response head:
// who sends it, that it is tracked, and when headers are set.
type headProto struct {
	p    *Program
	r    *Report
	it   *Interp
	root Root
	ctxs []*Expr
	wf   string // writer field
	want string // property being decided
}

func writerField(p *Program) string {
	for i := 0; i < p.role.ctxFields.NumFields(); i++ {
		if f := p.role.ctxFields.Field(i); implementsWriter(f.Type()) {
			return f.Name()
		}
	}
	return ""
}

func (h *headProto) fail(prop, rule, construct string, pos token.Pos, s *State, format string, a ...any) {
	if prop != h.want {
		return
	}
	h.r.fail(rule, h.root.name+":"+construct, pos, s, format, a...)
}

func (h *headProto) load(s *State, c *Expr, field string) *Expr {
	st := h.p.role.ctxFields
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == field {
			return h.it.load(s, h.it.fieldAddr(c, field, pointerTo(st.Field(i).Type())), st.Field(i).Type())
		}
	}
	return nil
}

// ctxOf finds the context whose writer is R.
func (h *headProto) ctxOf(s *State, R *Expr) *Expr {
	for _, c := range h.ctxs {
		if s.auto["ctx"+itoa(c.ID)] == "" {
			continue
		}
		if strip(h.load(s, c, h.wf)) == strip(R) {
			return c
		}
	}
	return nil
}

// sync checks that flag, status and head agree when other code can look.
func (h *headProto) sync(s *State, pos token.Pos, where string) {
	it := h.it
	if s.auto["dead"] != "" {
		return
	}
	for _, c := range h.ctxs {
		if s.auto["ctx"+itoa(c.ID)] == "" {
			continue
		}
		w := h.load(s, c, h.p.role.written)
		st := h.load(s, c, h.p.role.status)
		if s.auto["head"] != "" {
			if it.truth(s, w) != 1 {
				h.fail("C03", "head-untracked", where, pos, s, "a head was sent but the context does not report it as written (%s)", w)
				h.fail("C04", "head-untracked", where, pos, s, "a head was sent behind the context's back (%s)", w)
			}
			if l := s.lists["code"]; len(l) > 0 {
				if l[0] != st && it.truth(s, it.in.eq(st, l[0])) != 1 {
					h.fail("C03", "status-differs", where, pos, s, "status %s was sent but the context reports %s", l[0], st)
				}
			}
			h.r.ok("head-in-step", h.root.name+" "+where)
		} else {
			if a := s.lists["arm"]; len(a) > 0 {
				if it.truth(s, a[0]) != 1 {
					h.fail("C03", "written-without-head", where, pos, s, "the context reports a written response but no head was sent on this path")
				}
			}
			if a := s.lists["st"]; len(a) > 0 && a[0] != st {
				h.fail("C03", "status-without-head", where, pos, s, "the reported status changes from %s to %s but no head was sent on this path", a[0], st)
			}
		}
	}
}

func itoa(n int) string { return fmtInt(n) }

func (h *headProto) forget(s *State) {
	delete(s.auto, "head")
	delete(s.auto, "opq")
	delete(s.lists, "code")
	delete(s.lists, "arm")
	delete(s.lists, "st")
	delete(s.lists, "body")
}

// senders outside the module write to the http.ResponseWriter they get.
func ctxSender(name string) bool {
	switch {
	case strings.Contains(name, ".New"):
		return false
	}
	return true
}

func (h *headProto) run() []exit {
	p, it := h.p, h.it
	h.wf = writerField(p)
	if h.wf == "" {
		h.r.missing("response writer field of Context")
		return nil
	}
	isServe := h.root.ctxI < 0
	note := func(s *State, c *Expr) {
		if c == nil || !p.isCtxPtr(c) {
			return
		}
		switch c.Op {
		case OpParam, OpRes, OpAssert, OpAlloc, OpInit, OpSym, OpExtract:
		default:
			return
		}
		found := false
		for _, x := range h.ctxs {
			found = found || x == c
		}
		if !found {
			h.ctxs = append(h.ctxs, c)
		}
		s.auto["ctx"+itoa(c.ID)] = "1"
	}
	field := func(a *Expr) (*Expr, string) {
		if a.Op == OpFieldAddr && p.isCtxPtr(a.Args[0]) {
			return a.Args[0], a.Name
		}
		return nil, ""
	}
	raw := func(e *Expr) bool { return it.isRaw(e) }
	it.hooks.Opaque = func(fn *ssa.Function, ev *CallEv) bool {
		return fn == p.role.match || fn.Pkg == p.binding || fn.Pkg == nil && strings.Contains(fn.String(), "water/binding")
	}
	it.hooks.PanicEdge = func(s *State, ev *CallEv) bool { return p.isHandlerCall(ev) }
	it.hooks.Deref = func(s *State, fr *Frame, ptr *Expr, in ssa.Instruction) { note(s, ptr) }
	it.hooks.Store = func(s *State, fr *Frame, a, v *Expr, in ssa.Instruction) {
		c, f := field(a)
		pos := instrPos(in)
		switch {
		case c != nil && f == p.role.written:
			note(s, c)
			h.r.ok("written-store", p.pos(pos))
			old := h.load(s, c, f)
			switch it.truth(s, v) {
			case 1:
				if it.truth(s, old) != 1 {
					if s.auto["head"] == "" {
						s.lists["arm"] = []*Expr{old}
					}
				}
			case -1:
				if it.truth(s, old) == -1 && s.auto["head"] == "" {
					delete(s.lists, "arm")
					break
				}
				if isServe && c.Op != OpParam {
					if s.auto["ran"] != "" || s.auto["head"] != "" {
						s.auto["dead"] = "1"
					}
					h.forget(s)
					break
				}
				h.fail("C03", "written-reset", p.fnName(fr.fn), pos, s, "the written flag of a running request is cleared")
			default:
				if v != old {
					h.fail("C03", "written-value", p.fnName(fr.fn), pos, s, "the written flag gets a value that is not known: %s", v)
				}
			}
		case c != nil && f == p.role.status:
			note(s, c)
			if isServe && s.auto["ran"] == "" && s.auto["head"] == "" && it.truth(s, h.load(s, c, p.role.written)) == -1 {
				break // establishing the context
			}
			if len(s.lists["st"]) == 0 {
				s.lists["st"] = []*Expr{h.load(s, c, f)}
			}
		case c != nil && f == h.wf:
			note(s, c)
			if isServe && !it.in.mentions(v, func(e *Expr) bool { return e.Op == OpParam && implementsWriter(e.Typ) }) && !v.isNil() {
				h.fail("C04", "writer-origin", p.fnName(fr.fn), pos, s, "the context writes to something other than the connection's writer: %s", v)
			}
		default:
			if r := addrRoot(a); r.Op != OpAlloc && r.Op != OpMake && it.reaches(s, v, raw) {
				h.fail("C04", "raw-stored", p.fnName(fr.fn), pos, s, "the underlying writer is stored where other code can reach it")
			}
		}
	}
	header := func(s *State, pos token.Pos, fr *Frame) {
		h.r.ok("header-set", p.pos(pos))
		if s.auto["head"] != "" || s.auto["opq"] != "" {
			h.fail("C05", "header-after-head", p.fnName(fr.fn), pos, s, "a response header is set after this code sent the head: it is lost")
			return
		}
		if s.auto["ran"] != "" {
			for _, c := range h.ctxs {
				if s.auto["ctx"+itoa(c.ID)] != "" && it.truth(s, h.load(s, c, p.role.written)) != -1 {
					s.auto["late"] = "1"
					s.lists["late"] = []*Expr{it.in.intc(int64(pos))}
				}
			}
		}
	}
	it.hooks.MapUpdate = func(s *State, fr *Frame, m, k, v *Expr, in ssa.Instruction) {
		if it.isRespHeader(m) {
			header(s, instrPos(in), fr)
		}
	}
	it.hooks.Call = func(s *State, ev *CallEv) {
		if ev.Kind == "defer-stmt" {
			return
		}
		if ev.Kind == "go" {
			for _, a := range append([]*Expr{ev.Callee}, ev.Args...) {
				if a != nil && it.reaches(s, a, func(e *Expr) bool { return raw(e) }) {
					h.fail("C04", "raw-escapes", p.fnName(ev.Fr.fn), ev.Pos, s, "the underlying writer is handed to another goroutine")
				}
			}
			return
		}
		if ev.Fn == p.role.writeHeader || ev.Fn == p.role.write {
			delete(s.auto, "late")
			delete(s.lists, "late")
		}
		if len(ev.Args) > 0 && it.isRespHeader(ev.Args[0]) {
			switch ev.Name {
			case "(net/http.Header).Set", "(net/http.Header).Add", "(net/http.Header).Del":
				header(s, ev.Pos, ev.Fr)
				return
			}
		}
		if ev.Invoke && len(ev.Args) > 0 && raw(ev.Args[0]) {
			R := ev.Args[0]
			c := h.ctxOf(s, R)
			switch ev.Method {
			case "Header":
				return
			case "WriteHeader":
				h.r.ok("raw-head", p.pos(ev.Pos))
				if c == nil {
					h.direct(s, ev)
					return
				}
				if s.auto["dead"] != "" {
					h.fail("C03", "head-after-end", p.fnName(ev.Fr.fn), ev.Pos, s, "a head is sent after the context was wound up")
				}
				if s.auto["head"] != "" || s.auto["direct"] != "" || s.auto["opq"] != "" && it.truth(s, h.load(s, c, p.role.written)) != -1 && len(s.lists["arm"]) == 0 {
					h.fail("C03", "second-head", p.fnName(ev.Fr.fn), ev.Pos, s, "a second head is sent on this path")
				}
				guarded := false
				if a := s.lists["arm"]; len(a) > 0 {
					guarded = it.truth(s, a[0]) == -1
				} else {
					guarded = it.truth(s, h.load(s, c, p.role.written)) == -1
				}
				if !guarded {
					h.fail("C03", "unguarded-head", p.fnName(ev.Fr.fn), ev.Pos, s, "a head is sent although the response may already have been started")
				}
				delete(s.lists, "arm")
				delete(s.lists, "st")
				s.auto["head"] = "1"
				s.lists["code"] = []*Expr{ev.Args[1]}
				return
			case "Write":
				h.r.ok("raw-body", p.pos(ev.Pos))
				if c == nil {
					h.fail("C04", "raw-body", p.fnName(ev.Fr.fn), ev.Pos, s, "body bytes are written to a writer that is not the context's")
					return
				}
				if s.auto["head"] == "" && it.truth(s, h.load(s, c, p.role.written)) != 1 {
					h.fail("C03", "body-before-head", p.fnName(ev.Fr.fn), ev.Pos, s, "body bytes are written before a head was sent through the context")
					h.fail("C04", "body-untracked", p.fnName(ev.Fr.fn), ev.Pos, s, "body bytes are written to the underlying writer while the context does not report a written response")
				}
				s.push("body", ev.Args[1])
				return
			default:
				if c == nil || it.truth(s, h.load(s, c, p.role.written)) != 1 {
					h.fail("C04", "raw-method", p.fnName(ev.Fr.fn)+"."+ev.Method, ev.Pos, s, "method %s of the underlying writer is used while the context does not report a written response", ev.Method)
				}
				return
			}
		}
		if ev.Fn != nil && !ev.Cut && !it.hooks.Opaque(ev.Fn, ev) {
			return // inlined
		}
		if p.isHandlerCall(ev) {
			h.sync(s, ev.Pos, "handler")
			if s.auto["direct"] != "" {
				h.fail("C03", "handler-after-head", p.fnName(ev.Fr.fn), ev.Pos, s, "handlers are started after the dispatcher sent a head itself")
			}
			if s.auto["dead"] != "" {
				h.fail("C03", "handler-after-end", p.fnName(ev.Fr.fn), ev.Pos, s, "a handler is started after the context was wound up")
			}
			s.auto["ran"] = "1"
			h.forget(s)
			return
		}
		if strings.Contains(ev.Name, "/logx.") {
			s.auto["logged"] = "1"
		}
		// code that is not analysed
		args := ev.Args
		if ev.Callee != nil {
			args = append([]*Expr{ev.Callee}, args...)
		}
		for _, a := range args {
			if it.reaches(s, a, raw) {
				h.fail("C04", "raw-handed-on", p.fnName(ev.Fr.fn)+"→"+ev.Name, ev.Pos, s, "the underlying writer is handed to %s", ev.Name)
			}
		}
		toCtx := false
		for _, a := range args {
			if it.reaches(s, a, p.isCtxPtr) {
				toCtx = true
			}
		}
		if toCtx {
			h.r.ok("through-context", p.pos(ev.Pos)+" "+ev.Name)
			h.sync(s, ev.Pos, ev.Name)
			if ev.Name == "(*sync.Pool).Put" {
				return
			}
			if ctxSender(ev.Name) {
				delete(s.auto, "late")
				delete(s.lists, "late")
				// what is known about the head is now only what the flag says
				delete(s.auto, "head")
				delete(s.lists, "code")
				delete(s.lists, "arm")
				delete(s.lists, "st")
				s.auto["opq"] = "1"
			}
		}
	}
	st := it.initial()
	args := it.Params(h.root.fn)
	if h.root.ctxI >= 0 {
		st.facts[it.in.eq(args[h.root.ctxI], it.in.zero(args[h.root.ctxI].Typ))] = false
	}
	exits := it.startWith(h.root.fn, st, args)
	for _, e := range exits {
		if !e.panic {
			h.sync(e.st, e.pos, "return")
		} else if e.st.auto["head"] != "" || len(e.st.lists["arm"]) > 0 {
			h.sync(e.st, e.pos, "panic")
		}
		if e.st.auto["late"] != "" {
			pos := e.pos
			if l := e.st.lists["late"]; len(l) > 0 {
				if n, ok := l[0].constInt(); ok {
					pos = token.Pos(n)
				}
			}
			h.fail("C05", "header-after-chain", "return", pos, e.st, "a response header is set after the handlers ran, when the head may have been sent: it is lost")
		}
		for _, v := range e.vals {
			if it.reaches(e.st, v, raw) {
				h.fail("C04", "raw-returned", "return", e.pos, e.st, "the underlying writer is returned to the caller")
			}
		}
	}
	return exits
}

// direct handles a head the dispatcher sends before a context exists.
func (h *headProto) direct(s *State, ev *CallEv) {
	if h.root.ctxI >= 0 || s.auto["ran"] != "" || s.auto["head"] != "" {
		h.fail("C03", "raw-head", h.p.fnName(ev.Fr.fn), ev.Pos, s, "a head is sent to the underlying writer without the context")
		h.fail("C04", "raw-head", h.p.fnName(ev.Fr.fn), ev.Pos, s, "a head is sent to the underlying writer without the context")
		return
	}
	if s.auto["direct"] != "" {
		h.fail("C03", "second-head", h.p.fnName(ev.Fr.fn), ev.Pos, s, "a second head is sent on this path")
	}
	s.auto["direct"] = "1"
}

func headRun(p *Program, r *Report, want string, each func(h *headProto, args []*Expr, exits []exit)) {
	for _, f := range []*ssa.Function{p.role.write, p.role.writeHeader} {
		if f.Synthetic != "" {
			r.fail("tracked-methods", f.Name(), f.Pos(), nil, "Context does not declare %s: the underlying writer is used directly", f.Name())
			return
		}
	}
	for _, root := range p.ctxRoots() {
		h := &headProto{p: p, r: r, it: newInterp(p), root: root, want: want}
		t0 := time.Now()
		exits := h.run()
		if os.Getenv("WC_TIME") != "" {
			fmt.Fprintf(os.Stderr, "%8.2fs %7d steps %6d exits %s\n", time.Since(t0).Seconds(), h.it.steps, len(exits), root.name)
		}
		r.absorb(h.it, root.name)
		r.ok("root", root.name)
		if each != nil {
			each(h, h.it.Params(root.fn), exits)
		}
	}
}

func init() {
	register("C03", "Every exported method of Context, every function or closure taking a context, and the dispatcher are interpreted path by path with the context's fields symbolic. "+
		"At each head or body sent to the underlying writer the written flag must be known false (head) or the head known sent (body); one head per path; flag and status must agree with the head "+
		"whenever other code can look (handler start, external call with the context, return). WriteHeader and Write are additionally checked for forwarding code, data and results unchanged.",
		map[string]int{"raw-head": 1, "raw-body": 1, "head-in-step": 10, "write-exit": 2, "writeheader-exit": 2, "root": 30}, func(p *Program, r *Report) {
			headRun(p, r, "C03", func(h *headProto, args []*Expr, exits []exit) { c03(h, r, args, exits) })
			c03Accessors(p, r)
		})
	register("C04", "Taint of the underlying response writer over all paths of every root that works on a context: the raw writer may only have its header map used, or be the target of the tracked head/body "+
		"protocol; it must not be passed to unanalysed code (directly, boxed, or inside an object or closure), stored outside the context, returned, or used through another method while the flag is not set.",
		map[string]int{"raw-head": 1, "through-context": 8, "root": 30}, func(p *Program, r *Report) {
			headRun(p, r, "C04", nil)
		})
}

func c03(h *headProto, r *Report, args []*Expr, exits []exit) {
	it, p := h.it, h.p
	switch h.root.fn {
	case p.role.write:
		c := args[0]
		n := 0
		for _, e := range exits {
			if e.panic {
				continue
			}
			n++
			r.ok("write-exit", itoa(n))
			b := e.st.lists["body"]
			if len(b) != 1 || whole(b[0]) != args[1] {
				h.fail("C03", "body-altered", "data", e.pos, e.st, "Write must forward exactly the caller's bytes once, it forwards %v", b)
				continue
			}
			for i, v := range e.vals {
				ok := it.in.mentions(v, func(x *Expr) bool { return x.Op == OpRes && x.Name == "(net/http.ResponseWriter).Write" })
				if !ok || v.Op != OpExtract || v.Name != itoa(i) || v.Args[0].Op != OpRes {
					h.fail("C03", "result-altered", itoa(i), e.pos, e.st, "Write must return the writer's own result, it returns %s", v)
				}
			}
			if l := e.st.lists["code"]; len(l) > 0 {
				if k, ok := l[0].constInt(); !ok || k != 200 {
					h.fail("C03", "implicit-status", "code", e.pos, e.st, "an implicit head must carry 200, it carries %s", l[0])
				}
			}
		}
		_ = c
	case p.role.writeHeader:
		c := args[0]
		w0 := it.in.mk(Expr{Op: OpInit, Args: []*Expr{it.fieldAddr(c, p.role.written, nil)}, Typ: types.Typ[types.Bool]})
		n := 0
		for _, e := range exits {
			if e.panic {
				continue
			}
			n++
			r.ok("writeheader-exit", itoa(n))
			sent := e.st.auto["head"] != ""
			switch it.truth(e.st, w0) {
			case -1:
				if !sent {
					h.fail("C03", "head-dropped", "path", e.pos, e.st, "WriteHeader on a fresh response sends no head")
				} else if l := e.st.lists["code"]; len(l) == 0 || stripConv(l[0]) != args[1] {
					h.fail("C03", "code-altered", "path", e.pos, e.st, "WriteHeader must send the caller's code, it sends %v", l)
				}
			case 1:
				if sent {
					h.fail("C03", "second-head", "path", e.pos, e.st, "WriteHeader sends a head for a started response")
				}
				warned := false
				for st := e.st.path; st != nil; st = st.prev {
					warned = warned || strings.HasPrefix(st.text, "log ")
				}
				if e.st.auto["logged"] == "" && !warned {
					h.fail("C03", "no-warning", "path", e.pos, e.st, "a repeated WriteHeader is not reported with a warning")
				}
			default:
				h.fail("C03", "undecided-path", "path", e.pos, e.st, "WriteHeader does not depend on the written flag on this path")
			}
		}
	}
}

// whole removes conversions and slicing that keeps the whole sequence.
func whole(e *Expr) *Expr {
	for {
		e = stripConv(e)
		if e.Op == OpSlice && e.Args[1] == nil && e.Args[2] == nil {
			e = e.Args[0]
			continue
		}
		return e
	}
}

// c03Accessors checks that Written and Status report the tracked fields.
func c03Accessors(p *Program, r *Report) {
	for name, f := range map[string]string{"Written": p.role.written, "Status": p.role.status} {
		fn := p.method(p.water, "Context", name)
		it := newInterp(p)
		args := it.Params(fn)
		for _, e := range it.Run(fn, it.initial(), args, nil) {
			if e.panic || len(e.vals) != 1 {
				continue
			}
			h := &headProto{p: p, it: it}
			if e.vals[0] != h.load(e.st, args[0], f) {
				r.fail("accessor", name, e.pos, e.st, "%s reports %s instead of the tracked field %s", name, e.vals[0], f)
			}
			r.ok("accessor", name)
		}
		r.absorb(it, name)
	}
}
