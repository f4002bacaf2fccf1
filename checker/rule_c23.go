package main

import (
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C23", "The functions that fill values from request data are interpreted as units. Every store into a field of a struct and every call that is handed one needs, on its path, that the tag of that very field for the binding source is known not to be \"-\" and that the field is known to be exported or embedded, "+
		"either where the call is made or throughout the function called. In the functions behind MapForm the key a field is looked up with must come from that tag alone and be known not to be empty.",
		map[string]int{"field": 4, "key": 1}, c23)
}

type c23t struct {
	p       *Program
	r       *Report
	u       *bindUnits
	tag     map[*ssa.Function]int             // the parameter that names the tag
	bad     map[string]map[*ssa.Function]bool // a unit that acts without having checked its field
	acts    map[*ssa.Function]bool
	bind    map[*ssa.Function]bool
	final   bool
	fldType types.Type
}

var c23checks = []string{"excluded", "unexported"}

func c23(p *Program, r *Report) {
	c := &c23t{p: p, u: newBindUnits(p), tag: map[*ssa.Function]int{}, acts: map[*ssa.Function]bool{}, bind: map[*ssa.Function]bool{}, bad: map[string]map[*ssa.Function]bool{}, fldType: p.reflectType("StructField")}
	for _, k := range c23checks {
		c.bad[k] = map[*ssa.Function]bool{}
	}
	c.tags()
	if f := p.fn(p.binding, "MapForm"); f != nil {
		for _, g := range p.Funcs() {
			if g == f || p.fnReaches(f, map[*ssa.Function]bool{}, func(h *ssa.Function) bool { return h == g }) {
				c.bind[g] = true
			}
		}
	} else {
		r.missing("binding.MapForm")
		return
	}
	quiet := newReport(p, "C23")
	for _, rep := range []*Report{quiet, r} {
		c.r, c.final = rep, rep == r
		c.u.run(rep, c.unit, nil)
	}
}

// tags finds the parameters that name the tag of the binding source.
func (c *c23t) tags() {
	for changed := true; changed; {
		changed = false
		for _, f := range c.p.Funcs() {
			if f.Pkg != c.p.binding {
				continue
			}
			if _, ok := c.tag[f]; ok {
				continue
			}
			for i, q := range f.Params {
				if !isStringT(q.Type()) {
					continue
				}
				hit := false
				for _, ref := range *q.Referrers() {
					call, ok := ref.(ssa.CallInstruction)
					if !ok {
						continue
					}
					cc := call.Common()
					n := calleeName(cc)
					if (n == "(reflect.StructTag).Get" || n == "(reflect.StructTag).Lookup") && cc.Args[1] == q {
						hit = true
					}
					if g := cc.StaticCallee(); g != nil {
						if j, ok := c.tag[g]; ok && cc.Args[j] == q {
							hit = true
						}
					}
				}
				if hit {
					c.tag[f] = i
					changed = true
					break
				}
			}
		}
	}
}

type c23unit struct {
	*c24unit
	c   *c23t
	sub *Expr // the field the unit is given
	tag *Expr
}

func (c *c23t) unit(it *Interp, f *ssa.Function, s *State, args []*Expr) {
	u := &c23unit{c24unit: &c24unit{c: &c24t{p: c.p, r: c.r, u: c.u}, it: it, f: f, name: c.p.fnName(f), args: args}, c: c}
	if i, _ := c.u.valueArg(f); i >= 0 {
		u.v = args[i]
	}
	for i, q := range f.Params {
		if types.Identical(q.Type(), c.fldType) && u.sub == nil {
			u.sub = args[i]
		}
	}
	if i, ok := c.tag[f]; ok {
		u.tag = args[i]
	}
	it.hooks.Call = u.call
	if c.bind[f] {
		it.hooks.Assume = u.looked
	}
}

func (u *c23unit) call(s *State, ev *CallEv) {
	if ev.Instr == nil || ev.Kind == "defer-stmt" || ev.Fr == nil {
		return
	}
	it, c := u.it, u.c
	set := isSetter(ev.Name)
	if !set && (strings.HasPrefix(ev.Name, "(reflect.") || strings.HasPrefix(ev.Name, "reflect.") || !ev.Cut && ev.Fn != nil && ev.Fn.Pkg == c.p.binding && !c.u.step(ev.Fr.fn, ev.Fn)) {
		return
	}
	var x, fld *Expr
	for _, a := range ev.Args {
		a = it.snapshot(s, a)
		y := stripIface(stripChange(a))
		if y.Op == OpCall && y.Name == "(reflect.Value).Interface" {
			// the address of a value
			if z := stripChange(y.Args[0]); z.Op == OpCall && z.Name == "(reflect.Value).Addr" {
				a = z.Args[0]
			} else if !set {
				a = z
			}
		}
		if a.Typ != nil && types.Identical(a.Typ, u.c.p.reflectType("Value")) && x == nil {
			x = a
		}
		if a.Typ != nil && types.Identical(a.Typ, c.fldType) && fld == nil {
			fld = a
		}
	}
	if x == nil {
		return
	}
	fn := c.p.fnName(ev.Fr.fn)
	what := shortName(ev.Name)
	k, _, idx := u.target(x)
	// the unit's own field
	c.acts[u.f] = true
	if u.sub != nil {
		for _, chk := range c23checks {
			if !u.known(s, chk, nil, x) {
				c.bad[chk][u.f] = true
			}
		}
	}
	if c.bind[u.f] {
		u.keys(s, ev)
	}
	if g := ev.Fn; g != nil && !set {
		if j, ok := c.tag[g]; ok && j < len(ev.Args) {
			a := it.snapshot(s, ev.Args[j])
			if u.tag != nil && a != u.tag {
				c.r.fail("tag", fn+" "+what, ev.Pos, s, "%s looks at the tag %s instead of the one of the binding source", what, a)
			}
		}
	}
	if k != "field" && k != "felem" {
		// a value that hides which field it is
		hidden := false
		if k != "self" && k != "elem" && k != "new" && k != "index" {
			it.in.walk(x, func(y *Expr) bool {
				hidden = hidden || y.Op == OpCall && strings.HasPrefix(y.Name, "(reflect.Value).Field")
				return !hidden
			})
		}
		if hidden {
			c.r.fail("target", fn+" "+what, ev.Pos, s, "%s: which field %s is handed is not known", u.name, what)
		}
		return
	}
	for _, chk := range c23checks {
		c.r.ok("field", u.name+" "+what+" "+chk+c.p.pos(ev.Pos))
		if u.known(s, chk, idx, x) {
			continue
		}
		if g := ev.Fn; g != nil && !set && fld != nil && c.acts[g] && !c.bad[chk][g] && u.sameField(s, fld, idx) {
			continue
		}
		if chk == "excluded" {
			c.r.fail(chk, fn+" "+what, ev.Pos, s, "%s is handed a field whose tag may be \"-\"", what)
		} else {
			c.r.fail(chk, fn+" "+what, ev.Pos, s, "%s is handed a field that may be unexported", what)
		}
	}
}

func (u *c23unit) sameField(s *State, fld, idx *Expr) bool {
	ft := stripChange(fld)
	if ft.Op != OpCall || ft.Name != "(reflect.Type).Field" {
		return false
	}
	d, ok := u.it.exact(s, idx, ft.Args[1])
	return ok && d == 0
}

// known: the check is settled for field idx, or for the field the unit is given.
func (u *c23unit) known(s *State, chk string, idx, x *Expr) bool {
	if chk == "unexported" {
		if idx == nil {
			for f, v := range s.facts {
				if !v && f.Op == OpBin {
					continue
				}
				if e := emptyFact(f, v); e != nil && u.isField(e, "PkgPath", u.sub) || v && u.isField(f, "Anonymous", u.sub) {
					return true
				}
			}
			return u.it.truth(s, u.it.fieldOf(u.sub, "Anonymous", typBool)) == 1
		}
		if u.anonymous(s, idx) == 1 {
			return true
		}
		if u.factAbout(s, idx, "PkgPath", func(f *Expr, v bool, x *Expr) bool { return emptyFact(f, v) == x }) {
			return true
		}
		for f, v := range s.facts {
			if v && f.Op == OpCall && len(f.Args) == 1 {
				switch f.Name {
				case "(reflect.Value).CanSet":
					if k, _, j := u.target(f.Args[0]); k == "field" {
						if d, ok := u.it.exact(s, j, idx); ok && d == 0 {
							return true
						}
					}
				case "(reflect.StructField).IsExported":
					if u.sameField(s, f.Args[0], idx) {
						return true
					}
				}
			}
		}
		return false
	}
	whole, head, bare := false, false, false
	about := func(f *Expr, v bool, tag *Expr) bool {
		if f.Op == OpBin && f.Name == "<" {
			// no comma
			if c, ok := f.Args[1].constInt(); ok && c == 0 && v && isIndexOf(f.Args[0], tag) {
				bare = true
			}
		}
		if f.Op == OpBin && f.Name == "<" && v {
			if c, ok := f.Args[1].constInt(); ok && c == 2 && f.Args[0].Op == OpLen && isSplit(f.Args[0].Args[0], tag) {
				bare = true
			}
		}
		if f.Op == OpCall && !v && strip(f.Args[0]) == tag {
			c, _ := f.Args[len(f.Args)-1].constStr()
			bare = bare || f.Name == "strings.Contains" && c == "," || f.Name == "strings.HasPrefix" && c == "-,"
		}
		if f.Op == OpBin && f.Name == "==" {
			if c, ok := f.Args[1].constInt(); ok && c == -1 && v && isIndexOf(f.Args[0], tag) {
				bare = true
			}
			if c, ok := f.Args[1].constInt(); ok && c == 1 && !v && isIndexOf(f.Args[0], tag) {
				// what comes before the comma is not one byte long
				head = true
			}
			for i := 0; i < 2; i++ {
				e := strip(f.Args[1-i])
				if c, ok := f.Args[i].constInt(); ok && !v {
					switch {
					case c == 1 && e.Op == OpLen:
						// a length other than one
						e = strip(e.Args[0])
					case c == 2 && e.Op == OpLen && isSplit(e.Args[0], tag):
						bare = true
						continue
					case c == '-':
						for e.Op == OpConv {
							e = e.Args[0]
						}
						l, j := element(e)
						if l == nil {
							continue
						}
						if n, ok := j.constInt(); !ok || n != 0 {
							continue
						}
						if e = strip(l); e == tag {
							head = true
						}
					default:
						continue
					}
				} else if c, ok := f.Args[i].constStr(); !ok || c == "-" == v {
					continue
				}
				if e.Op == OpCall && (e.Name == "strings.TrimSpace") {
					e = e.Args[0]
				}
				if e == tag {
					whole = true
				} else if u.headOf(e, tag) {
					head = true
				}
			}
		}
		if f.Op == OpExtract && f.Name == "1" && !v && f.Args[0].Op == OpCall && f.Args[0].Name == "(reflect.StructTag).Lookup" && tag.Op == OpExtract && tag.Args[0] == f.Args[0] {
			head = true
		}
		return false
	}
	for f, v := range s.facts {
		u.it.in.walk(f, func(y *Expr) bool {
			if t := u.tagOf(s, y, idx); t != nil {
				about(f, v, t)
			}
			return true
		})
	}
	if u.c.bind[u.f] {
		return head || whole && bare
	}
	return head || whole
}

func isIndexOf(e, tag *Expr) bool {
	return e.Op == OpCall && (e.Name == "strings.Index" || e.Name == "strings.IndexByte" || e.Name == "strings.IndexRune") && strip(e.Args[0]) == tag
}

func isSplit(e, tag *Expr) bool {
	return e.Op == OpCall && (e.Name == "strings.Split" || e.Name == "strings.SplitN") && strip(e.Args[0]) == tag
}

// headOf: e is what comes before the first comma of tag.
func (u *c23unit) headOf(e, tag *Expr) bool {
	switch {
	case e.Op == OpSlice && strip(e.Args[0]) == tag:
		if lo := e.Args[1]; lo != nil {
			if n, ok := lo.constInt(); !ok || n != 0 {
				return false
			}
		}
		return len(e.Args) > 2 && e.Args[2] != nil && isIndexOf(e.Args[2], tag)
	case e.Op == OpExtract && e.Name == "0" && e.Args[0].Op == OpCall && e.Args[0].Name == "strings.Cut":
		return strip(e.Args[0].Args[0]) == tag
	case e.Op == OpSym:
		alts := u.it.in.alternatives(e)
		for _, a := range alts {
			if a = strip(a); a != tag && !u.headOf(a, tag) {
				return false
			}
		}
		return len(alts) > 1
	}
	if l, i := element(e); l != nil {
		n, ok := i.constInt()
		return ok && n == 0 && isSplit(l, tag)
	}
	return false
}

func (u *c23unit) isField(e *Expr, name string, sub *Expr) bool {
	return sub != nil && e.Op == OpField && e.Name == name && e.Args[0] == sub
}

// tagOf recognises the tag of the binding source of field idx (or of the field
// the unit is given).
func (u *c23unit) tagOf(s *State, e, idx *Expr) *Expr {
	g := e
	if e.Op == OpExtract && e.Name == "0" {
		g = e.Args[0]
		if g.Op != OpCall || g.Name != "(reflect.StructTag).Lookup" {
			return nil
		}
	} else if e.Op != OpCall || e.Name != "(reflect.StructTag).Get" {
		return nil
	}
	if u.tag == nil || g.Args[1] != u.tag {
		return nil
	}
	t := stripChange(g.Args[0])
	if t.Op != OpField || t.Name != "Tag" {
		return nil
	}
	if idx == nil {
		if t.Args[0] == u.sub {
			return e
		}
		return nil
	}
	if u.sameField(s, t.Args[0], idx) {
		return e
	}
	return nil
}

// keys checks what the values handed on were looked up with.
func (u *c23unit) keys(s *State, ev *CallEv) {
	it, c := u.it, u.c
	seen := map[*Expr]bool{}
	see := func(e *Expr) {
		it.in.walk(e, func(y *Expr) bool {
			if (y.Op == OpLookup || y.Op == OpLookupOk) && (isFormMap(y.Args[0].Typ) || isFileMap(y.Args[0].Typ)) {
				seen[y.Args[1]] = true
			}
			return true
		})
	}
	for _, a := range ev.Args {
		see(it.snapshot(s, a))
	}
	for f, v := range s.facts {
		if v && f.Op == OpLookupOk {
			see(f)
		}
	}
	for key := range seen {
		c.r.ok("key", u.name+c.p.pos(ev.Pos))
		why, maybe := u.key(s, key)
		switch {
		case why != "":
			c.r.fail("key", u.name, ev.Pos, s, "%s fills a field from the key given by %s", u.name, why)
		case maybe != "" && s.auto["key"] != "ok":
			c.r.fail("untagged", u.name, ev.Pos, s, "%s may fill a field that has no tag for the source, from the key %s", u.name, maybe)
		}
	}
}

// looked notes whether the keys looked up so far are known to be fine.
func (u *c23unit) looked(s *State, e *Expr, val bool) bool {
	if e.Op == OpLookupOk && (isFormMap(e.Args[0].Typ) || isFileMap(e.Args[0].Typ)) && s.auto["key"] != "bad" {
		s.auto["key"] = "ok"
		if why, maybe := u.key(s, e.Args[1]); why+maybe != "" {
			s.auto["key"] = "bad"
		}
	}
	return true
}

// key says what is wrong with a key, and what it may be.
func (u *c23unit) key(s *State, key *Expr) (why, maybe string) {
	it := u.it
	full, tagged := false, false
	it.in.walk(key, func(y *Expr) bool {
		if y.Op == OpField && y.Name == "Name" && types.Identical(y.Args[0].Typ, u.c.fldType) {
			why = "the name of the field"
		}
		if c, ok := y.constStr(); ok && isAlternative(it, key, y) && it.eqStr(s, key, c) != -1 {
			maybe = strconv.Quote(c)
			if key == y {
				why = "the constant " + maybe
			}
		}
		if t := u.tagOf(s, y, nil); t != nil {
			tagged = true
		}
		full = full || y.Op != OpConst && isStringT2(y.Typ) && it.eqStr(s, y, "") == -1
		return true
	})
	if !tagged && why == "" {
		why = "something other than the tag"
	}
	if !full && maybe == "" {
		maybe = "\"\""
	}
	return
}

// isAlternative: e may be exactly a.
func isAlternative(it *Interp, e, a *Expr) bool {
	if e == a {
		return true
	}
	for _, x := range it.in.alternatives(e) {
		if x == a {
			return true
		}
	}
	return false
}

func isStringT2(t types.Type) bool { return t != nil && isStringT(t) }
