package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C06", "Next and the dispatcher are interpreted with symbolic context state. At every start of a handler the handler must be the element of the context's handler list at the context's current position, "+
		"the position must be the start position (old position+1 for Next, 0 for the dispatcher) or exactly one past the position left by the previous handler with the written flag known clear, "+
		"and a return is only allowed when the flag is set or the position has reached the length; the recorded length must equal the list's length.",
		map[string]int{"start": 2, "exit": 4, "length": 1}, c06)
}

func c06(p *Program, r *Report) {
	for _, fn := range []*ssa.Function{p.role.next, p.role.serve} {
		c06Root(p, r, fn)
	}
}

func c06Root(p *Program, r *Report, fn *ssa.Function) {
	it := newInterp(p)
	name := p.fnName(fn)
	isServe := fn == p.role.serve
	fail := func(rule string, pos token.Pos, s *State, format string, a ...any) {
		r.fail(rule, name, pos, s, format, a...)
	}
	fieldV := func(s *State, c *Expr, f string) *Expr {
		t := fieldType(p, f)
		return it.load(s, it.fieldAddr(c, f, pointerTo(t)), t)
	}
	intT := types.Typ[types.Int]
	_ = intT
	// eqTo proves a == b in s
	eqTo := func(s *State, a, b *Expr) bool {
		return a == b || it.truth(s, it.in.eq(a, b)) == 1
	}
	var ctx *Expr
	// lengthOK proves that the loop bound used is the list's length: the
	// recorded length fields equal len(handlers).
	lens := c06LenFields(p)
	atEnd := func(s *State, c, next *Expr) bool {
		// next >= len(handlers) or next >= recorded length
		h := fieldV(s, c, p.role.handlers)
		if it.truth(s, it.in.lss(next, it.in.lenOf(h))) == -1 {
			return true
		}
		for _, lf := range lens {
			if it.truth(s, it.in.lss(next, fieldV(s, c, lf))) == -1 {
				return true
			}
		}
		return false
	}
	it.hooks.Opaque = func(f *ssa.Function, ev *CallEv) bool { return f == p.role.match }
	it.hooks.Call = func(s *State, ev *CallEv) {
		if !p.isHandlerCall(ev) {
			return
		}
		r.ok("start", name+" "+p.pos(ev.Pos))
		c := ev.Args[len(ev.Args)-1]
		ctx = c
		hs := fieldV(s, c, p.role.handlers)
		idx := fieldV(s, c, p.role.index)
		// the handler started
		if !ev.Invoke {
			fail("handler", ev.Pos, s, "a function that is not an element of the handler list is started")
			return
		}
		h := strip(ev.Args[0])
		want := strip(it.load(s, it.indexAddr(hs, idx, nil), p.role.handler))
		if h != want {
			// same list, an index equal to the position?
			ok := false
			if h.Op == OpInit && h.Args[0].Op == OpIndexAddr && stripChange(h.Args[0].Args[0]) == stripChange(hs) {
				ok = eqTo(s, h.Args[0].Args[1], idx)
			}
			if !ok {
				fail("handler", ev.Pos, s, "the handler started is %s, the one at the context's position is %s", h, want)
			}
		}
		if l := s.lists["post"]; len(l) > 0 {
			if !eqTo(s, idx, it.in.addc(l[0], 1)) {
				fail("order", ev.Pos, s, "the next handler started is at position %s, expected one past %s", idx, l[0])
			}
			if it.truth(s, l[1]) != -1 {
				fail("after-write", ev.Pos, s, "another handler is started although the previous one may have written a response")
			}
		} else if isServe {
			if k, ok := idx.constInt(); !ok || k != 0 {
				fail("first", ev.Pos, s, "dispatch starts at position %s instead of 0", idx)
			}
			for _, lf := range lens {
				r.ok("length", lf)
				if !eqTo(s, fieldV(s, c, lf), it.in.lenOf(hs)) {
					r.fail("length", lf, ev.Pos, s, "the recorded length %s of the handler list is not its length %s", fieldV(s, c, lf), it.in.lenOf(hs))
				}
			}
		} else {
			i0 := s.lists["i0"][0]
			if !eqTo(s, idx, it.in.addc(i0, 1)) {
				fail("first", ev.Pos, s, "Next starts the handler at position %s, expected one past %s", idx, i0)
			}
			if len(lens) == 0 {
				r.ok("length", "none")
			}
		}
	}
	it.hooks.After = func(s *State, ev *CallEv, res *Expr) {
		if p.isHandlerCall(ev) {
			c := ev.Args[len(ev.Args)-1]
			s.lists["post"] = []*Expr{fieldV(s, c, p.role.index), fieldV(s, c, p.role.written)}
			s.auto["phase"] = "after"
		}
	}
	st := it.initial()
	args := it.Params(fn)
	if !isServe {
		ctx = args[0]
		st.facts[it.in.eq(ctx, it.in.zero(ctx.Typ))] = false
		st.lists["i0"] = []*Expr{fieldV(st, ctx, p.role.index)}
	}
	exits := it.Run(fn, st, args, nil)
	for _, e := range exits {
		if e.panic {
			continue
		}
		r.ok("exit", name+" "+e.st.autoKey()+p.pos(e.pos))
		l := e.st.lists["post"]
		if len(l) == 0 {
			if !isServe {
				if !atEnd(e.st, ctx, it.in.addc(e.st.lists["i0"][0], 1)) {
					fail("not-started", e.pos, e.st, "Next returns without starting the following handler although there may be one")
				}
			}
			continue
		}
		c := ctx
		if it.truth(e.st, l[1]) == 1 {
			continue
		}
		if !atEnd(e.st, c, it.in.addc(l[0], 1)) {
			fail("skipped", e.pos, e.st, "the chain ends after position %s although the response may be unwritten and handlers may remain", l[0])
		}
	}
	for _, e := range exits {
		if e.panic || len(e.st.lists["post"]) == 0 || isServe {
			continue
		}
		// what an enclosing activation sees as the position left by its handler
		idx := fieldV(e.st, ctx, p.role.index)
		if it.truth(e.st, it.in.lss(idx, e.st.lists["post"][0])) != -1 {
			fail("rewound", e.pos, e.st, "Next returns with the position moved back to %s: handlers would run again", idx)
		}
	}
	r.absorb(it, name)
}

// c06LenFields lists the integer context fields that record the length of the
// handler list: those compared with the position.
func c06LenFields(p *Program) []string {
	var out []string
	seen := map[string]bool{}
	for _, f := range p.Funcs() {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				bo, ok := in.(*ssa.BinOp)
				if !ok {
					continue
				}
				fld := func(v ssa.Value) string {
					u, ok := v.(*ssa.UnOp)
					if !ok || u.Op != token.MUL {
						return ""
					}
					fa, ok := u.X.(*ssa.FieldAddr)
					if !ok || !types.Identical(derefT(fa.X.Type()), p.role.ctx) {
						return ""
					}
					return p.role.ctxFields.Field(fa.Field).Name()
				}
				x, y := fld(bo.X), fld(bo.Y)
				if y == p.role.index {
					x, y = y, x
				}
				if x == p.role.index && y != "" && y != x && !seen[y] && isInteger(fieldType(p, y)) {
					seen[y] = true
					out = append(out, y)
				}
			}
		}
	}
	return out
}
