package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var verbs = []string{"GET", "POST", "PUT", "PATCH", "DELETE", "HEAD", "OPTIONS"}

// scenario fixes what of the request the dispatcher decides on.
type scenario struct {
	major, minor int64
	star         bool
	method       string // "?other" for any string that is no supported method and not CONNECT
}

func (sc scenario) String() string {
	u := "path"
	if sc.star {
		u = "*"
	}
	return fmt.Sprintf("HTTP/%d.%d %s %s", sc.major, sc.minor, sc.method, u)
}

// dispatch is one analysis of ServeHTTP.
type dispatch struct {
	p    *Program
	r    *Report
	it   *Interp
	sc   scenario
	args []*Expr
	// called at every start of the chain and at every exit
	onStart func(s *State, ev *CallEv, c *Expr)
	onMatch func(s *State, ev *CallEv)
	onHead  func(s *State, ev *CallEv)
}

func (p *Program) fieldOfType(n *types.Named, t types.Type) string {
	st, ok := n.Underlying().(*types.Struct)
	if !ok {
		return ""
	}
	for i := 0; i < st.NumFields(); i++ {
		if types.Identical(st.Field(i).Type(), t) {
			return st.Field(i).Name()
		}
	}
	return ""
}

func (d *dispatch) str(v string) *Expr {
	return d.it.in.constOf(constant.MakeString(v), types.Typ[types.String])
}

func (d *dispatch) ctxField(s *State, c *Expr, f string) *Expr {
	t := fieldType(d.p, f)
	return d.it.load(s, d.it.fieldAddr(c, f, pointerTo(t)), t)
}

func (d *dispatch) run() []exit {
	p, it := d.p, d.it
	fn := p.role.serve
	d.args = it.Params(fn)
	req := d.args[2]
	st := it.initial()
	set := func(name string, v *Expr) {
		f := fieldPtrType(derefT(req.Typ), name)
		st.mem[it.fieldAddr(req, name, f)] = v
	}
	st.facts[it.in.eq(req, it.in.zero(req.Typ))] = false
	num := func(n int64) *Expr { return it.in.constOf(constant.MakeInt64(n), types.Typ[types.Int]) }
	set("ProtoMajor", num(d.sc.major))
	set("ProtoMinor", num(d.sc.minor))
	set("Proto", d.str(fmt.Sprintf("HTTP/%d.%d", d.sc.major, d.sc.minor)))
	if d.sc.star {
		set("RequestURI", d.str("*"))
	} else {
		u := it.param("req.RequestURI", types.Typ[types.String])
		set("RequestURI", u)
		st.facts[it.in.eq(u, d.str("*"))] = false
	}
	if d.sc.method == "?other" {
		m := it.param("req.Method", types.Typ[types.String])
		set("Method", m)
		for _, v := range append([]string{"CONNECT"}, verbs...) {
			st.facts[it.in.eq(m, d.str(v))] = false
		}
	} else {
		set("Method", d.str(d.sc.method))
	}
	it.hooks.Opaque = func(f *ssa.Function, ev *CallEv) bool { return f == p.role.match }
	it.hooks.Override = func(s *State, ev *CallEv) (*Expr, bool) {
		if ev.Name == "(*net/http.Request).ProtoAtLeast" && len(ev.Args) == 3 && ev.Args[0] == req {
			a, ok1 := ev.Args[1].constInt()
			b, ok2 := ev.Args[2].constInt()
			if ok1 && ok2 {
				return it.in.boolc(d.sc.major > a || d.sc.major == a && d.sc.minor >= b), true
			}
		}
		return nil, false
	}
	it.hooks.Call = func(s *State, ev *CallEv) {
		if ev.Kind == "defer-stmt" {
			return
		}
		switch {
		case p.isHandlerCall(ev):
			if s.auto["started"] == "" {
				s.auto["started"] = "1"
				if d.onStart != nil {
					d.onStart(s, ev, ev.Args[len(ev.Args)-1])
				}
			}
		case ev.Fn == p.role.match:
			s.auto["match"] = "1"
			if d.onMatch != nil {
				d.onMatch(s, ev)
			}
		case ev.Invoke && ev.Method == "WriteHeader" && it.isRaw(ev.Args[0]):
			if d.onHead != nil {
				d.onHead(s, ev)
			}
			s.push("heads", ev.Args[1])
			if s.auto["started"] != "" {
				s.auto["lateHead"] = "1"
			}
		case ev.Invoke && ev.Method == "Write" && it.isRaw(ev.Args[0]):
			s.push("bodies", ev.Args[1])
		}
	}
	it.hooks.After = func(s *State, ev *CallEv, res *Expr) {
		if ev.Fn == p.role.match && res != nil {
			s.push("matches", it.extract(res, 0, pointerTo(p.role.node)))
		}
	}
	return it.Run(fn, st, d.args, nil)
}

// unmatched proves that no route matched: a match was tried and gave nothing.
func (d *dispatch) unmatched(s *State) bool {
	for _, m := range s.lists["matches"] {
		if d.it.nilness(s, m) == 1 {
			return true
		}
	}
	// the tree of the method does not exist
	for f, v := range s.facts {
		if v && f.Op == OpBin && f.Name == "==" && f.Args[1].isNil() && types.Identical(derefT(f.Args[0].Typ), d.p.role.node) {
			if x := f.Args[0]; x.Op == OpInit && x.Args[0].Op == OpIndexAddr {
				return true
			}
		}
	}
	return false
}

// chosen explains where the handler list hs comes from.
func (d *dispatch) chosen(s *State, c, hs *Expr) (kind string, n *Expr) {
	hs = stripChange(hs)
	if hs.Op == OpInit && hs.Args[0].Op == OpFieldAddr {
		b := hs.Args[0].Args[0]
		if types.Identical(derefT(b.Typ), d.p.role.node) {
			return "route", b
		}
		root := hs
		for {
			switch root.Op {
			case OpInit, OpFieldAddr, OpIndexAddr:
				root = root.Args[0]
				continue
			}
			break
		}
		if root == d.args[0] {
			return "notfound", nil
		}
	}
	return "", nil
}

func allScenarios() []scenario {
	var out []scenario
	for _, pr := range [][2]int64{{1, 0}, {0, 9}, {1, 1}, {2, 0}} {
		for _, star := range []bool{false, true} {
			for _, m := range append([]string{"CONNECT", "?other"}, verbs...) {
				out = append(out, scenario{pr[0], pr[1], star, m})
			}
		}
	}
	return out
}

func (sc scenario) rejected() bool {
	return sc.major < 1 || sc.major == 1 && sc.minor < 1 || sc.star || sc.method == "CONNECT"
}

func init() {
	register("C07", "The dispatcher is interpreted once per class of request (protocol below/above 1.1, '*' or any other target, CONNECT, each supported method, any other method string), with routing results symbolic. "+
		"Rejected classes must send exactly 406, unsupported methods exactly 405, and start nothing; accepted classes may start handlers only with the handler list of the matched node (node known non-nil and recorded as the matched one) "+
		"or, with the match known to have failed, the configured not-found handlers, and may send nothing but 404 when the match failed and no such handlers exist.",
		map[string]int{"class": 60, "route-start": 7, "notfound-start": 7, "404": 7}, c07)
}

func c07(p *Program, r *Report) {
	endField := p.fieldOfType(p.role.ctx, pointerTo(p.role.node))
	for _, sc := range allScenarios() {
		d := &dispatch{p: p, r: r, it: newInterp(p), sc: sc}
		it := d.it
		class := "accepted"
		switch {
		case sc.rejected():
			class = "rejected"
		case sc.method == "?other":
			class = "unsupported"
		}
		fail := func(rule string, pos token.Pos, s *State, format string, a ...any) {
			r.fail(rule, class, pos, s, "for "+sc.String()+": "+format, a...)
		}
		d.onStart = func(s *State, ev *CallEv, c *Expr) {
			if class != "accepted" {
				fail("handler-ran", ev.Pos, s, "a handler is started for a request that must be answered without one")
				return
			}
			hs := d.ctxField(s, c, p.role.handlers)
			kind, n := d.chosen(s, c, hs)
			end := d.ctxField(s, c, endField)
			switch kind {
			case "route":
				r.ok("route-start", sc.method)
				if it.nilness(s, n) != -1 {
					fail("route", ev.Pos, s, "handlers of a node that may be absent are started: %s", n)
				}
				if strip(end) != strip(n) {
					fail("route", ev.Pos, s, "the handlers of %s are started but %s is recorded as the matched route", n, end)
				}
			case "notfound":
				r.ok("notfound-start", sc.method)
				if !d.unmatched(s) {
					fail("notfound", ev.Pos, s, "the not-found handlers are started although a route may match")
				}
				if it.nilness(s, end) != 1 {
					fail("notfound", ev.Pos, s, "the not-found handlers run with a matched route recorded: %s", end)
				}
			default:
				fail("chain", ev.Pos, s, "the handlers started belong neither to the matched route nor to the not-found configuration: %s", hs)
			}
		}
		for _, e := range d.run() {
			if e.panic {
				if e.st.auto["started"] == "" {
					fail("panic", e.pos, e.st, "the dispatcher panics before any handler runs")
				}
				continue
			}
			r.ok("class", sc.String())
			var codes []string
			for _, h := range e.st.lists["heads"] {
				codes = append(codes, h.String())
			}
			got := strings.Join(codes, ",")
			started := e.st.auto["started"] != ""
			switch class {
			case "rejected":
				if got != "406" || started {
					fail("gate", e.pos, e.st, "the request must be answered 406 and nothing else, the dispatcher sends [%s], handlers started: %v", got, started)
				}
			case "unsupported":
				if got != "405" || started {
					fail("gate", e.pos, e.st, "the request must be answered 405 and nothing else, the dispatcher sends [%s], handlers started: %v", got, started)
				}
			default:
				if len(e.st.lists["bodies"]) > 0 {
					fail("gate", e.pos, e.st, "the dispatcher sends body bytes itself")
				}
				if started {
					if got != "" {
						fail("gate", e.pos, e.st, "the dispatcher itself sends [%s] although handlers run", got)
					}
					break
				}
				if got == "404" {
					r.ok("404", sc.method)
					if !d.unmatched(e.st) {
						fail("404", e.pos, e.st, "404 is sent although a route may match")
					}
					if !d.noNotFound(e.st) {
						fail("404", e.pos, e.st, "404 is sent although not-found handlers may be configured")
					}
					break
				}
				if got != "" {
					fail("gate", e.pos, e.st, "the dispatcher sends [%s] for an accepted request", got)
					break
				}
				// nothing was done: only right when the chosen chain is empty
				ok := d.emptyRoute(e.st)
				if !ok {
					fail("unanswered", e.pos, e.st, "the request is neither answered nor given to handlers")
				}
			}
		}
		r.absorb(it, "ServeHTTP")
	}
}

// noNotFound proves that no not-found handlers are configured.
func (d *dispatch) noNotFound(s *State) bool {
	in := d.it.in
	for f := range s.facts {
		for _, x := range f.Args {
			l := x
			if l == nil {
				continue
			}
			if l.Op != OpLen && l.Op == OpInit {
				// nil comparison of the list itself
				if k, _ := d.chosen(s, nil, l); k == "notfound" && d.it.nilness(s, l) == 1 {
					return true
				}
				continue
			}
			if l.Op == OpLen {
				if k, _ := d.chosen(s, nil, l.Args[0]); k == "notfound" && d.it.truth(s, in.lss(in.intc(0), l)) == -1 {
					return true
				}
			}
		}
	}
	return false
}

// emptyRoute proves that the matched node has no handlers at all.
func (d *dispatch) emptyRoute(s *State) bool {
	in := d.it.in
	var ls []*Expr
	for f := range s.facts {
		for _, x := range f.Args {
			if x != nil && x.Op == OpLen {
				if k, _ := d.chosen(s, nil, x.Args[0]); k == "route" {
					ls = append(ls, x)
				}
			}
		}
	}
	for _, x := range ls {
		if d.it.truth(s, in.lss(in.intc(0), x)) == -1 {
			return true
		}
	}
	return false
}
