package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C40", "Run, RunTLS, ListenAndServe and ListenAndServeTLS are interpreted with symbolic arguments (Run for every number of addresses): on every normal end exactly one call that serves HTTP was made, plain or with TLS as the name says, with the address given (\":8080\" if none was), this engine as the handler and the certificate and key files in their places, and its error is the result; more than one address never gets that far.",
		map[string]int{"start": 6}, c40)
}

// serveCall is one call that starts to serve.
type serveCall struct {
	addr, handler, cert, key, res *Expr
	tls                           bool
	other                         string // what else the server was told
	pos                           token.Pos
}

func c40(p *Program, r *Report) {
	for _, t := range []struct {
		name string
		tls  bool
		n    int // number of addresses of a list, -1: one address, 2: at least two
	}{{"Run", false, 0}, {"Run", false, 1}, {"Run", false, 2}, {"RunTLS", true, -1}, {"ListenAndServe", false, -1}, {"ListenAndServeTLS", true, -1}} {
		f := p.method(p.water, "Engine", t.name)
		if f == nil {
			r.missing("Engine." + t.name)
			continue
		}
		c40one(p, r, f, t.tls, t.n)
	}
}

func c40one(p *Program, r *Report, f *ssa.Function, tls bool, n int) {
	name := p.fnName(f)
	it := newInterp(p)
	st := it.initial()
	args := it.Params(f)
	in := it.in
	st.facts[in.eq(args[0], in.zero(args[0].Typ))] = false
	str := types.Typ[types.String]
	var addr *Expr
	switch {
	case n < 0:
		addr = args[1]
	case n == 0:
		addr = in.constOf(constantString(":8080"), str)
		args[1] = in.zero(args[1].Typ)
	case n == 1:
		addr = it.param("address", str)
		args[1] = in.mk(Expr{Op: OpList, Args: []*Expr{addr}, Typ: args[1].Typ})
	default:
		it.assume(st, in.lss(in.intc(1), in.lenOf(args[1])), true)
	}
	var calls []*serveCall
	// what the server is told counts when it starts
	it.hooks.Call = func(s *State, ev *CallEv) {
		c := p.serveCall(it, s, ev)
		if c == nil || ev.Kind == "defer-stmt" {
			return
		}
		c.pos = ev.Pos
		if ev.Kind == "go" {
			c.other = "it is started in the background"
		}
		calls = append(calls, c)
		s.auto["serve"] += " " + itoa(len(calls)-1)
	}
	it.hooks.After = func(s *State, ev *CallEv, res *Expr) {
		if w := fieldsOf(s.auto["serve"]); len(w) > 0 && p.serveCall(it, s, ev) != nil {
			calls[w[len(w)-1]].res = res
		}
	}
	label := name
	if n >= 0 {
		label += " with " + itoa(n) + " addresses"
	}
	fail := func(pos token.Pos, s *State, format string, x ...any) { r.fail("start", label, pos, s, format, x...) }
	ends := 0
	for _, e := range it.startWith(f, st, args) {
		var done []*serveCall
		for _, w := range fieldsOf(e.st.auto["serve"]) {
			done = append(done, calls[w])
		}
		if e.panic {
			if n < 2 && len(done) == 0 {
				fail(e.pos, e.st, "%s panics", label)
			}
			if n >= 2 {
				ends++
				r.ok("start", label+" "+p.pos(e.pos))
				if len(done) > 0 {
					fail(e.pos, e.st, "%s serves although it was given more than one address", name)
				}
			}
			continue
		}
		if n >= 2 {
			fail(e.pos, e.st, "%s accepts more than one address", name)
			continue
		}
		ends++
		r.ok("start", label+" "+p.pos(e.pos))
		if len(done) == 0 && len(e.vals) == 1 {
			// listening failed
			if x := strip(e.vals[0]); x.Op == OpExtract && (x.Args[0].Op == OpCall || x.Args[0].Op == OpRes) && x.Args[0].Name == "net.Listen" && it.nilness(e.st, x) == -1 &&
				strip(x.Args[0].Args[1]) == strip(addr) {
				continue
			}
		}
		if len(done) != 1 {
			fail(e.pos, e.st, "%s starts to serve %d times", label, len(done))
			continue
		}
		c := done[0]
		switch {
		case c.other != "":
			fail(c.pos, e.st, "%s: %s", label, c.other)
		case c.tls != tls:
			fail(c.pos, e.st, "%s serves %s", label, map[bool]string{true: "with TLS", false: "without TLS"}[c.tls])
		case strip(c.addr) != strip(addr):
			fail(c.pos, e.st, "%s listens on %s instead of %s", label, c.addr, addr)
		case strip(c.handler) != args[0]:
			fail(c.pos, e.st, "%s serves %s instead of the engine", label, c.handler)
		case tls && (strip(c.cert) != args[2] || strip(c.key) != args[3]):
			fail(c.pos, e.st, "%s uses %s and %s as certificate and key files", label, c.cert, c.key)
		case c.res == nil || len(e.vals) != 1 || strip(e.vals[0]) != strip(c.res):
			// known nil is the same
			if !(c.res != nil && len(e.vals) == 1 && e.vals[0].isNil() && it.nilness(e.st, c.res) == 1) {
				fail(e.pos, e.st, "%s returns %s instead of the error it stopped serving with", label, e.vals[0])
			}
		}
	}
	if ends == 0 {
		r.missing("end of " + label)
	}
	r.absorb(it, label)
}

// fieldsOf splits a list of numbers.
func fieldsOf(s string) []int {
	var out []int
	n, in := 0, false
	for _, c := range s + " " {
		if c >= '0' && c <= '9' {
			n, in = n*10+int(c-'0'), true
		} else if in {
			out = append(out, n)
			n, in = 0, false
		}
	}
	return out
}

// serveCall recognises a call that serves HTTP.
func (p *Program) serveCall(it *Interp, s *State, ev *CallEv) *serveCall {
	a := ev.Args
	switch ev.Name {
	case "net/http.ListenAndServe":
		return &serveCall{addr: a[0], handler: a[1]}
	case "net/http.ListenAndServeTLS":
		return &serveCall{addr: a[0], cert: a[1], key: a[2], handler: a[3], tls: true}
	case "(*net/http.Server).ListenAndServe", "(*net/http.Server).ListenAndServeTLS":
		c := &serveCall{}
		st, ok := derefT(a[0].Typ).Underlying().(*types.Struct)
		if !ok {
			return nil
		}
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			v := s.mem[it.fieldAddr(a[0], f.Name(), pointerTo(f.Type()))]
			switch f.Name() {
			case "Addr":
				c.addr = v
			case "Handler":
				c.handler = v
			}
		}
		if c.addr == nil {
			c.addr = it.in.constOf(constantString(""), types.Typ[types.String])
		}
		if c.handler == nil {
			c.handler = it.in.zero(types.NewInterfaceType(nil, nil))
		}
		if len(a) == 3 {
			c.cert, c.key, c.tls = a[1], a[2], true
		}
		return c
	case "net/http.Serve", "net/http.ServeTLS":
		c := p.listened(it, a[0])
		c.handler = a[1]
		if len(a) == 4 {
			c.cert, c.key, c.tls = a[2], a[3], true
		}
		return c
	case "(*net/http.Server).Serve", "(*net/http.Server).ServeTLS":
		c := p.listened(it, a[1])
		if st, ok := derefT(a[0].Typ).Underlying().(*types.Struct); ok {
			for i := 0; i < st.NumFields(); i++ {
				if f := st.Field(i); f.Name() == "Handler" {
					c.handler = s.mem[it.fieldAddr(a[0], f.Name(), pointerTo(f.Type()))]
				}
			}
		}
		if c.handler == nil {
			c.handler = it.in.zero(types.NewInterfaceType(nil, nil))
		}
		if len(a) == 4 {
			c.cert, c.key, c.tls = a[2], a[3], true
		}
		return c
	}
	return nil
}

// listened is a call that serves on a listener.
func (p *Program) listened(it *Interp, l *Expr) *serveCall {
	l = strip(l)
	if l.Op == OpExtract && l.Name == "0" && (l.Args[0].Op == OpCall || l.Args[0].Op == OpRes) && l.Args[0].Name == "net.Listen" {
		if c, ok := l.Args[0].Args[0].constStr(); ok && c == "tcp" {
			return &serveCall{addr: l.Args[0].Args[1]}
		}
	}
	return &serveCall{other: "it serves on another listener", addr: it.in.zero(types.Typ[types.String])}
}
