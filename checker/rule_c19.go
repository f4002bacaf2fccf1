package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C19", "Every function of the module that returns an error is interpreted on its own (calls of other error-returning functions are steps with an unknown error, helpers without one are inlined). "+
		"At every return whose error may be nil, the error of every step taken on the path must be known nil or be the returned value itself; an iteration that ends with a step not known to have succeeded requires every later return to be known non-nil. "+
		"The first Close of a file opened for writing is such a step and must have happened. Not steps: closing what was only read, and the parse of an option in a struct tag.",
		map[string]int{"step": 30, "return": 40, "written": 1}, c19)
}

// returnsError reports whether the last result of f is an error.
func returnsError(sig *types.Signature) bool {
	n := sig.Results().Len()
	return n > 0 && isErrorT(sig.Results().At(n-1).Type())
}

// notAStep lists calls that never fail.
func notAStep(name string) bool {
	switch {
	case strings.HasPrefix(name, "(hash."), strings.HasPrefix(name, "(*bytes.Buffer)."), strings.HasPrefix(name, "(*strings.Builder)."),
		name == "(error).Unwrap", name == "errors.New", name == "fmt.Errorf", name == "errors.Unwrap", name == "errors.Join":
		return true
	}
	return false
}

func c19(p *Program, r *Report) {
	for _, f := range p.Funcs() {
		if f.Synthetic != "" || !returnsError(f.Signature) || len(f.Blocks) == 0 {
			continue
		}
		if f.Name() == "Unwrap" {
			continue
		}
		c19one(p, r, f)
	}
}

// fromTag: the value comes from an option written in a struct tag.
func (it *Interp) fromTag(e *Expr) bool {
	return it.in.mentions(e, func(x *Expr) bool {
		if x.Op == OpCall && strings.HasPrefix(x.Name, "(reflect.StructTag).") {
			return true
		}
		if x.Op == OpFieldAddr || x.Op == OpField {
			b := x.Args[0].Typ
			if x.Op == OpFieldAddr {
				b = derefT(b)
			}
			return b != nil && strings.HasSuffix(typeKey(b), ".setOptions")
		}
		return false
	})
}

func c19one(p *Program, r *Report, f *ssa.Function) {
	it := newInterp(p)
	name := p.fnName(f)
	st := it.initial()
	args := it.Params(f)
	if f.Signature.Recv() != nil && len(args) > 0 {
		st.facts[it.in.eq(args[0], it.in.zero(args[0].Typ))] = false
	}
	it.hooks.Opaque = func(g *ssa.Function, ev *CallEv) bool { return returnsError(g.Signature) && !p.alwaysFails(g) }
	type step struct {
		err  *Expr
		what string
		pos  token.Pos
	}
	steps := map[string]*step{}
	writes := map[string]string{} // files opened for writing
	it.hooks.After = func(s *State, ev *CallEv, v *Expr) {
		if ev.Kind == "defer-stmt" || v == nil || ev.Instr == nil || notAStep(ev.Name) || p.alwaysFails(ev.Fn) {
			return
		}
		sig := ev.Instr.Common().Signature()
		if !returnsError(sig) || v.Op == OpTuple && v.Name == "" && v.Args[len(v.Args)-1].isNil() {
			return
		}
		if ev.Method == "Err" || strings.HasSuffix(ev.Name, ").Err") && len(ev.Args) == 1 {
			return
		}
		n := sig.Results().Len()
		e := v
		if n > 1 {
			e = it.extract(v, n-1, sig.Results().At(n-1).Type())
		}
		what := shortName(ev.Name)
		if ev.Name == "" {
			what = "a function value"
		}
		if len(ev.Args) > 0 && (ev.Method == "Close" || strings.HasSuffix(ev.Name, ").Close")) {
			// a step only for what was written, and only the first time
			x := stripIface(ev.Args[0])
			k := ""
			if x.Op == OpExtract && x.Name == "0" {
				k = "w:" + itoa(x.Args[0].ID)
			}
			if s.auto[k] != "o" {
				return
			}
			s.auto[k] = "c"
		}
		if strings.HasPrefix(ev.Name, "strconv.") && it.fromTag(ev.Args[0]) {
			return
		}
		switch ev.Name {
		case "os.OpenFile":
			if k, ok := ev.Args[1].constInt(); !ok || k&3 != 0 {
				s.auto["w:"+itoa(v.ID)] = "o"
				writes["w:"+itoa(v.ID)] = what
			}
		case "os.Create", "os.CreateTemp", "io/ioutil.TempFile":
			s.auto["w:"+itoa(v.ID)] = "o"
			writes["w:"+itoa(v.ID)] = what
		}
		r.ok("step", name+" "+what+p.pos(ev.Pos))
		k := "e:" + itoa(e.ID)
		steps[k] = &step{e, what, ev.Pos}
		s.auto[k] = "1"
	}
	it.hooks.Arrive = func(s *State, fr *Frame, blk *ssa.BasicBlock, back bool) {
		for _, k := range sortedKeys(s.auto) {
			if strings.HasPrefix(k, "e:") {
				switch {
				case it.nilness(s, steps[k].err) == 1:
					delete(s.auto, k)
				case back:
					delete(s.auto, k)
					if s.auto["failed"] == "" {
						s.auto["failed"] = steps[k].what
					}
				}
			}
		}
	}
	for _, e := range it.startWith(f, st, args) {
		if e.panic {
			continue
		}
		s := e.st
		r.ok("return", name+p.pos(e.pos))
		ret := e.vals[len(e.vals)-1]
		if it.nilness(s, ret) == -1 {
			continue
		}
		nilCase := s.clone()
		if !it.assume(nilCase, it.in.eq(ret, it.in.zero(ret.Typ)), true) {
			continue
		}
		for _, k := range sortedKeys(s.auto) {
			if !strings.HasPrefix(k, "e:") {
				continue
			}
			if x := steps[k]; strip(ret) != x.err && it.nilness(nilCase, x.err) != 1 {
				r.fail("swallowed", name+" "+x.what, e.pos, s, "%s may return nil although %s (%s) failed", name, x.what, p.pos(x.pos))
			}
		}
		if w := s.auto["failed"]; w != "" {
			r.fail("swallowed", name+" "+w, e.pos, s, "%s may return nil although %s failed in an earlier iteration", name, w)
		}
		for _, k := range sortedKeys(writes) {
			r.ok("written", name+writes[k])
			if s.auto[k] == "o" && it.nilness(nilCase, it.extractOf(k, 1)) != -1 {
				r.fail("written", name+" "+writes[k], e.pos, s, "%s may return nil without having closed the file %s opened for writing", name, writes[k])
			}
		}
	}
	r.absorb(it, name)
}

// extractOf returns the error of the call with the id in an automaton key.
func (it *Interp) extractOf(k string, i int) *Expr {
	id := k[strings.IndexByte(k, ':')+1:]
	for _, x := range it.in.byID {
		if itoa(x.ID) == id {
			return it.extract(x, i, types.Universe.Lookup("error").Type())
		}
	}
	return nil
}

// alwaysFails: f makes an error, every return of it is known non-nil.
func (p *Program) alwaysFails(f *ssa.Function) bool {
	if f == nil || !p.inModule(f) || !returnsError(f.Signature) || len(f.Blocks) == 0 {
		return false
	}
	if p.failing == nil {
		p.failing = map[*ssa.Function]bool{}
	}
	v, ok := p.failing[f]
	if ok {
		return v
	}
	p.failing[f] = false
	it := newInterp(p)
	it.max = 20000
	it.hooks.Opaque = func(g *ssa.Function, ev *CallEv) bool { return returnsError(g.Signature) && !p.alwaysFails(g) }
	n, all := 0, true
	for _, e := range it.startWith(f, it.initial(), it.Params(f)) {
		if !e.panic {
			n++
			all = all && it.nilness(e.st, e.vals[len(e.vals)-1]) == -1
		}
	}
	p.failing[f] = n > 0 && all && len(it.problem) == 0
	return p.failing[f]
}
