package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C31", "The function that builds a tree node is interpreted with a symbolic pattern (pattern analysis, name splitting and compilation inlined). On every path that returns normally after an expression was compiled, the node is known to be a regexp segment whose expression compiled without error and is known to have as many groups as the segment has names; "+
		"the expression is the pattern's own text, put in parentheses only where it is known to have no group of its own; the names are the pattern's comma-separated names, each kept in its place. "+
		"The recursive matcher selects a regexp segment only where the groups captured are known to be as many as its names, and records each name with its own group.",
		map[string]int{"node": 3, "accept": 2, "group": 1}, c31)
}

// nodeBuilders lists the functions that store a node's regexp, climbing to
// the callers where it is merely passed in.
func nodeBuilders(p *Program, reg string) []*ssa.Function {
	seen := map[*ssa.Function]bool{}
	var out []*ssa.Function
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if seen[f] {
			return
		}
		seen[f] = true
		// its expression comes from outside
		for _, q := range f.Params {
			if typeKey(derefT(q.Type())) == "regexp.Regexp" {
				for _, c := range callersOf(p, f) {
					add(c)
				}
				return
			}
			if f.Signature.Recv() == nil && types.Identical(derefT(q.Type()), p.role.node) && q == f.Params[0] && f.Signature.Results().Len() == 0 {
				for _, c := range callersOf(p, f) {
					add(c)
				}
				return
			}
		}
		out = append(out, f)
	}
	for _, f := range p.Funcs() {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok {
					if a, ok := s.Addr.(*ssa.FieldAddr); ok && types.Identical(derefT(a.X.Type()), p.role.node) &&
						p.role.node.Underlying().(*types.Struct).Field(a.Field).Name() == reg {
						add(f)
					}
				}
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	return out
}

func c31(p *Program, r *Report) {
	m := &matcher{p: p, r: r}
	if x := m.nodeShape(); x != "" {
		r.missing(x)
		return
	}
	fs := nodeBuilders(p, m.reg)
	if len(fs) == 0 {
		r.missing("function that builds a tree node with its regexp")
		return
	}
	for _, f := range fs {
		c31Node(p, r, m, f)
	}
	matchRule(p, r, "C31")
}

// compiled recognises the result of compiling an expression.
func compiled(e *Expr) (src *Expr, err func(it *Interp) *Expr, ok bool) {
	e = strip(e)
	if e == nil {
		return nil, nil, false
	}
	if e.Op == OpExtract && e.Name == "0" && (e.Args[0].Name == "regexp.Compile" || e.Args[0].Name == "regexp.CompilePOSIX") {
		c := e.Args[0]
		return c.Args[0], func(it *Interp) *Expr {
			return it.extract(c, 1, types.Universe.Lookup("error").Type())
		}, true
	}
	if e.Op == OpCall && (e.Name == "regexp.MustCompile" || e.Name == "regexp.MustCompilePOSIX") {
		return e.Args[0], nil, true
	}
	return nil, nil, false
}

// parens recognises text put in parentheses as one group.
func parens(e *Expr) (*Expr, bool) {
	e = strip(e)
	if e.Op == OpCall && e.Name == "fmt.Sprintf" && len(e.Args) == 2 {
		f, ok := e.Args[0].constStr()
		if ok && (f == "(%s)" || f == "(%v)") {
			return strip(stripIface(e.Args[1])), true
		}
		return nil, false
	}
	if e.Op == OpBin && e.Name == "+" {
		var parts []*Expr
		var rec func(e *Expr)
		rec = func(e *Expr) {
			if e.Op == OpBin && e.Name == "+" {
				rec(e.Args[0])
				rec(e.Args[1])
				return
			}
			parts = append(parts, e)
		}
		rec(e)
		if len(parts) == 3 {
			a, ok := parts[0].constStr()
			b, ok2 := parts[2].constStr()
			if ok && ok2 && a == "(" && b == ")" {
				return parts[1], true
			}
		}
		return nil, false
	}
	return nil, false
}

func c31Node(p *Program, r *Report, m *matcher, f *ssa.Function) {
	it := newInterp(p)
	m.it = it
	in := it.in
	name := p.fnName(f)
	st := it.initial()
	args := it.Params(f)
	for _, a := range args {
		if types.Identical(derefT(a.Typ), p.role.node) && f.Signature.Recv() != nil && a == args[0] {
			st.facts[in.eq(a, in.zero(a.Typ))] = false
		}
	}
	isNames := func(e *Expr) bool {
		e = strip(e)
		if e.Op != OpCall || e.Name != "strings.Split" {
			return false
		}
		c, ok := e.Args[1].constStr()
		return ok && c == ","
	}
	st.ghost["names"] = in.intc(0)
	it.hooks.Call = func(s *State, ev *CallEv) {
		if ev.Callee == nil && ev.Fn == nil && ev.Method == "append" && len(ev.Args) == 2 {
			// one more name
			l := stripChange(it.snapshot(s, ev.Args[1]))
			if l.Op == OpList && len(l.Args) == 1 {
				if x := trimmed(l.Args[0]); x.Op == OpInit && x.Args[0].Op == OpIndexAddr && isNames(x.Args[0].Args[0]) {
					if d, ok := it.exact(s, x.Args[0].Args[1], s.ghost["names"]); ok && d == 0 {
						s.ghost["names"] = in.addc(x.Args[0].Args[1], 1)
						s.auto["appended"] = "x"
					} else {
						r.fail("node", name+"-names", ev.Pos, s, "names of a segment are skipped or repeated")
					}
				}
			}
			return
		}
		if ev.Fn == nil && ev.Name != "" && !strings.HasPrefix(ev.Name, "strings.") && !strings.HasPrefix(ev.Name, "fmt.") {
			for _, a := range ev.Args {
				if isNames(a) {
					r.fail("node", name+"-names", ev.Pos, s, "the names of a segment are handed to %s", ev.Name)
				}
			}
		}
		if (strings.HasPrefix(ev.Name, "regexp.Compile") || strings.HasPrefix(ev.Name, "regexp.MustCompile")) && len(ev.Args) == 1 {
			if _, isC := ev.Args[0].constStr(); !isC {
				s.auto["compiled"] = "x"
				// the expression is what stands between two marks, without them
				it.in.walk(ev.Args[0], func(y *Expr) bool {
					if y.Op != OpSlice {
						return true
					}
					for i, b := range y.Args[1:] {
						if b == nil || i > 1 {
							continue
						}
						it.in.walk(b, func(z *Expr) bool {
							if (z.Op != OpCall && z.Op != OpRes) || z.Name != "strings.Index" && z.Name != "strings.IndexByte" && z.Name != "strings.LastIndex" {
								return true
							}
							sep, ok := z.Args[1].constStr()
							n := int64(len(sep))
							if !ok {
								_, ok = z.Args[1].constInt()
								n = 1
							}
							if !ok || z.Args[0] != y.Args[0] {
								return false
							}
							want := n
							if i == 1 {
								want = 0
							}
							r.ok("text", p.pos(ev.Pos))
							if d, known := it.exact(s, b, z); known && d != want {
								r.fail("text", name, ev.Pos, s, "the expression of a segment is cut at %s: it is what stands between the marks, without them", b)
							}
							return false
						})
					}
					return true
				})
			}
		}
	}
	it.hooks.Store = func(s *State, fr *Frame, addr, val *Expr, instr ssa.Instruction) {
		if addr.Op == OpFieldAddr && types.Identical(derefT(addr.Args[0].Typ), p.role.node) && addr.Args[0].Op == OpAlloc {
			l := s.lists["nodes"]
			for _, x := range l {
				if x == addr.Args[0] {
					return
				}
			}
			s.push("nodes", addr.Args[0])
		}
		if addr.Op == OpIndexAddr && isStringT(val.Typ) {
			// names keep their place
			b := addr.Args[0]
			var src *Expr
			if isNames(b) {
				src = b
			} else if b.Op == OpMake && len(b.Args) == 1 && b.Args[0].Op == OpLen && isNames(b.Args[0].Args[0]) {
				src = strip(b.Args[0].Args[0])
			}
			if src == nil {
				return
			}
			v := trimmed(val)
			good := v.Op == OpInit && v.Args[0].Op == OpIndexAddr && v.Args[0].Args[0] == src
			if good {
				d, ok := it.exact(s, v.Args[0].Args[1], addr.Args[1])
				good = ok && d == 0
			}
			if !good {
				r.fail("node", name+"-names", instrPos(instr), s, "name %s of a segment becomes %s", addr.Args[1], val)
			}
		}
	}
	n := 0
	for _, e := range it.startWith(f, st, args) {
		if e.panic {
			continue
		}
		s := e.st
		if s.auto["compiled"] == "" {
			// no expression: must not be a regexp segment
			for _, x := range s.lists["nodes"] {
				n++
				r.ok("node", p.pos(e.pos)+x.String())
				if has(m.kinds(s, x), kRegexp) && !onlyInit(m.fld(s, x, m.kind)) {
					r.fail("node", name+"-none", e.pos, s, "a node that may be a regexp segment is built without an expression")
				}
			}
			continue
		}
		if len(s.lists["nodes"]) == 0 {
			r.fail("node", name+"-lost", e.pos, s, "an expression is compiled but no node built")
		}
		for _, x := range s.lists["nodes"] {
			n++
			r.ok("node", p.pos(e.pos)+x.String()+itoa(len(s.facts)))
			c31Check(p, r, m, s, x, name, e.pos, isNames)
		}
	}
	if n == 0 {
		r.missing("node built by " + name)
	}
	r.absorb(it, name)
}

func onlyInit(e *Expr) bool { return e != nil && e.Op == OpInit }

func c31Check(p *Program, r *Report, m *matcher, s *State, x *Expr, name string, pos token.Pos, isNames func(*Expr) bool) {
	it := m.it
	in := it.in
	if !onlyKind(m.kinds(s, x), kRegexp) {
		r.fail("node", name+"-kind", pos, s, "an expression is compiled but the node is of kind %s: the expression is not used for matching", m.fld(s, x, m.kind))
		return
	}
	reg := m.fld(s, x, m.reg)
	src, errOf, ok := compiled(reg)
	if !ok {
		r.fail("node", name+"-reg", pos, s, "a regexp segment is accepted with expression %s, which is not known to be a compiled one", reg)
		return
	}
	if errOf != nil && it.nilness(s, errOf(it)) != 1 && it.nilness(s, strip(reg)) != -1 {
		r.fail("node", name+"-error", pos, s, "a regexp segment is accepted although its expression may not have compiled")
	}
	wild := m.fld(s, x, m.wild)
	if !groupsEqual(it, s, reg, in.lenOf(wild)) {
		r.fail("node", name+"-count", pos, s, "a regexp segment is accepted although its expression may have another number of groups than the segment has names")
	}
	if ls := namesOf(it, s, wild, isNames); ls == nil {
		r.fail("node", name+"-names", pos, s, "the names of a segment are %s, not its comma-separated names", wild)
	} else if what := nameEnd(it, s, ls.Args[0]); what != "" {
		r.fail("node", name+"-ends", pos, s, "the names of a segment are taken from %s: %s", ls.Args[0], what)
	}
	// the expression is the one written
	if inner, ok := parens(src); ok {
		known := false
		for _, y := range in.byID {
			if z, _, ok := compiled(y); ok && z == inner && groupsEqual(it, s, y, in.intc(0)) {
				known = true
			}
		}
		if !known {
			r.fail("node", name+"-wrap", pos, s, "an expression that may have groups of its own is put in parentheses: the names no longer get their own groups")
		}
		src = inner
	}
	if !fromPattern(it, src) {
		r.fail("node", name+"-text", pos, s, "the expression compiled is %s, which is not a part of the pattern", src)
	}
}

// groupsEqual decides whether NumSubexp of reg is known to equal n.
func groupsEqual(it *Interp, s *State, reg, n *Expr) bool {
	reg = strip(reg)
	for _, c := range it.in.byID {
		if c.Op == OpCall && c.Name == "(*regexp.Regexp).NumSubexp" && strip(c.Args[0]) == reg {
			if d, ok := it.exact(s, c, n); ok && d == 0 || it.truth(s, it.in.eq(c, n)) == 1 {
				return true
			}
		}
		// one name per group: SubexpNames has one more
		if c.Op == OpCall && c.Name == "(*regexp.Regexp).SubexpNames" && strip(c.Args[0]) == reg && it.truth(s, it.in.eq(it.in.lenOf(c), it.in.addc(n, 1))) == 1 {
			return true
		}
	}
	return false
}

// namesOf is the split text of which the names are the parts, in order.
func namesOf(it *Interp, s *State, w *Expr, isNames func(*Expr) bool) *Expr {
	if isNames(w) {
		return strip(w)
	}
	for _, e := range it.in.byID {
		if isNames(e) && s.auto["appended"] != "" && it.truth(s, it.in.lss(s.ghost["names"], it.in.lenOf(e))) == -1 {
			return strip(e)
		}
		if isNames(e) && it.truth(s, it.in.eq(it.in.lenOf(w), it.in.lenOf(e))) == 1 {
			return strip(e)
		}
	}
	return nil
}

// sepOf is the separator a position is the first one of.
func sepOf(e *Expr) string {
	e = strip(e)
	if e.Op != OpCall || len(e.Args) < 2 {
		return ""
	}
	switch e.Name {
	case "strings.SplitN":
		c, _ := e.Args[1].constStr()
		return c
	case "strings.Index", "strings.Cut", "strings.Split", "strings.Contains":
		c, _ := e.Args[1].constStr()
		return c
	case "strings.IndexByte", "strings.IndexRune":
		if c, ok := e.Args[1].constInt(); ok && c > 0 && c < 128 {
			return string(rune(c))
		}
	}
	return ""
}

// nameEnd decides whether the names end in front of the segment's type as well
// as in front of its expression, whichever comes first.
func nameEnd(it *Interp, s *State, e *Expr) string {
	seps := map[string]bool{}
	var his []*Expr
	for e = strip(e); e.Op != OpParam; {
		switch {
		case e.Op == OpSlice:
			if e.Args[2] != nil {
				his = append(his, e.Args[2])
			}
			if hi := e.Args[2]; hi == nil {
			} else if sep := sepOf(hi); sep != "" {
				seps[sep] = true
			} else if b, _ := split(strip(hi)); !(b.Op == OpCall && strings.HasPrefix(b.Name, "strings.LastIndex") || b.Op == OpLen) {
				return ""
			}
			e = strip(e.Args[0])
		case e.Op == OpCall && strings.HasPrefix(e.Name, "strings.Trim"):
			e = strip(e.Args[0])
		case e.Op == OpExtract && e.Name == "0" && sepOf(e.Args[0]) != "":
			seps[sepOf(e.Args[0])] = true
			e = strip(strip(e.Args[0]).Args[0])
		case e.Op == OpInit && e.Args[0].Op == OpIndexAddr && e.Args[0].Args[1] == it.in.intc(0) && sepOf(e.Args[0].Args[0]) != "":
			seps[sepOf(e.Args[0].Args[0])] = true
			e = strip(e.Args[0].Args[0].Args[0])
		default:
			return ""
		}
	}
	if seps[":"] && seps["~"] {
		return ""
	}
	var colon, tilde []*Expr
	for _, c := range it.in.byID {
		switch sepOf(c) {
		case ":":
			colon = append(colon, c)
		case "~":
			tilde = append(tilde, c)
		}
	}
	none := func(c *Expr) bool {
		if c.Name == "strings.Contains" {
			return it.truth(s, c) == -1
		}
		return strings.HasPrefix(c.Name, "strings.Index") && (it.truth(s, it.in.lss(c, it.in.intc(0))) == 1 || it.truth(s, it.in.eq(c, it.in.intc(-1))) == 1)
	}
	cut := seps[":"]
	if !cut {
		for _, c := range colon {
			if none(c) {
				seps[":"] = true
			}
			for _, t := range tilde {
				if seps["~"] && it.truth(s, it.in.lss(c, t)) == -1 {
					seps[":"] = true
				}
			}
		}
	}
	// what is not in front of the end is not part of the names
	for sep, cs := range map[string][]*Expr{":": colon, "~": tilde} {
		for _, c := range cs {
			for _, hi := range his {
				if strings.HasPrefix(c.Name, "strings.Index") && it.truth(s, it.in.lss(c, hi)) == -1 {
					seps[sep] = true
				}
			}
		}
	}
	if !seps["~"] && seps[":"] {
		for _, t := range tilde {
			if none(t) {
				seps["~"] = true
			}
			for _, c := range colon {
				if cut && it.truth(s, it.in.lss(t, c)) == -1 {
					seps["~"] = true
				}
			}
		}
	}
	switch {
	case seps[":"] && seps["~"]:
		return ""
	case seps[":"]:
		return "a tilde in front of the colon is taken for part of a name, when the expression has a colon of its own"
	case seps["~"]:
		return "the type of the segment is taken for part of a name"
	}
	there := func(c *Expr) bool {
		if c.Name == "strings.Contains" {
			return it.truth(s, c) == 1
		}
		return strings.HasPrefix(c.Name, "strings.Index") && it.truth(s, it.in.lss(c, it.in.intc(0))) == -1
	}
	for _, x := range it.in.byID {
		// told in another way
		switch {
		case x.Op == OpCall && (strings.HasSuffix(x.Name, "Any") || strings.HasSuffix(x.Name, "Func")) && strings.HasPrefix(x.Name, "strings."):
			if c, ok := x.Args[len(x.Args)-1].constStr(); !ok || strings.ContainsAny(c, ":~") {
				return ""
			}
		case (x.Op == OpRes || x.Op == OpCall) && x.Name == "range" && len(x.Args) > 0 && isStringT(x.Args[0].Typ):
			return ""
		case x.Op == OpIndex && isStringT(x.Args[0].Typ) && x.Args[1].Op == OpSym:
			return ""
		}
	}
	for _, c := range append(append([]*Expr{}, colon...), tilde...) {
		if there(c) {
			return "what follows the names is taken for part of a name"
		}
	}
	return "" // not told by a position
}

// fromPattern: slices and trims of a parameter only.
func fromPattern(it *Interp, e *Expr) bool {
	e = strip(e)
	for {
		switch {
		case e.Op == OpParam:
			return true
		case e.Op == OpSlice:
			e = strip(e.Args[0])
		case e.Op == OpCall && (strings.HasPrefix(e.Name, "strings.Trim")):
			e = strip(e.Args[0])
		case e.Op == OpExtract && e.Args[0].Op == OpCall && strings.HasPrefix(e.Args[0].Name, "strings.Cut"):
			e = strip(e.Args[0].Args[0])
		case e.Op == OpInit && e.Args[0].Op == OpIndexAddr && e.Args[0].Args[0].Op == OpCall && strings.HasPrefix(e.Args[0].Args[0].Name, "strings.SplitN"):
			e = strip(e.Args[0].Args[0].Args[0])
		default:
			return false
		}
	}
}

// callersOf lists the module functions that call f directly.
func callersOf(p *Program, f *ssa.Function) []*ssa.Function {
	var out []*ssa.Function
	for _, g := range p.Funcs() {
	next:
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok && c.Common().StaticCallee() == f {
					out = append(out, g)
					break next
				}
			}
		}
	}
	return out
}

func trimmed(e *Expr) *Expr {
	e = strip(e)
	for e.Op == OpCall && strings.HasPrefix(e.Name, "strings.Trim") {
		e = strip(e.Args[0])
	}
	return e
}
