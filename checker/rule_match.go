package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C09", "The recursive matcher is interpreted with symbolic tree, path and parameters, under the induction hypothesis that a call that finds nothing records nothing and one that finds a node records that node's own captures. "+
		"On every path: nothing is recorded before a recursive call or before a candidate is given up, nothing is recorded when nothing is returned, and what is recorded belongs to the returned node or to the branch the returned node was found in. "+
		"For the selected segment the record is complete: a placeholder or wildcard under its own name with the segment or remaining text it stands for unless its name is known to be '_', every name of a regexp segment with its own group (induction over the loop), an unnamed wildcard under its number. Match returns exactly the parameters of its own match.",
		map[string]int{"exit": 6, "write": 4, "recursion": 2, "match-result": 1}, func(p *Program, r *Report) { matchRule(p, r, "C09") })
	register("C10", "The recursive matcher is interpreted with symbolic tree and path: by induction over its loops every candidate passed over is known rejected (other text, other regexp result, or nothing found below it), in list order, with no candidate skipped; nothing is returned before all candidates and the trailing wildcards of the level are known rejected; a candidate is accepted only if its segment fits. "+
		"The insertion functions keep each list sorted by segment kind and, within a kind, in registration order; the kinds are numbered static, regexp, placeholder, wildcard.",
		map[string]int{"exit": 6, "candidate": 2, "insert": 2}, func(p *Program, r *Report) { matchRule(p, r, "C10"); c10Insert(p, r, true) })
}

type matcher struct {
	p                                      *Program
	r                                      *Report
	it                                     *Interp
	prop                                   string
	g                                      *ssa.Function
	n, u, params, level                    *Expr
	sub, end, kind, pat, key, wild, reg, _ string
	learn                                  bool
}

func (m *matcher) ok(prop, rule, site string) {
	if m.prop == prop && !m.learn {
		m.r.ok(rule, site)
	}
}

func (m *matcher) fail(prop, rule string, pos token.Pos, s *State, format string, a ...any) {
	if m.prop == prop && !m.learn {
		m.r.fail(rule, m.p.fnName(m.g), pos, s, format, a...)
	}
}

// nodeShape names the fields of a tree node.
func (m *matcher) nodeShape() string {
	p := m.p
	st, ok := p.role.node.Underlying().(*types.Struct)
	if !ok {
		return "struct type of the tree node"
	}
	var strs []string
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		switch t := f.Type().Underlying().(type) {
		case *types.Basic:
			if t.Info()&types.IsInteger != 0 {
				m.kind = f.Name()
			} else if t.Info()&types.IsString != 0 {
				strs = append(strs, f.Name())
			}
		case *types.Slice:
			if isStringT(t.Elem()) {
				m.wild = f.Name()
			}
		case *types.Pointer:
			if typeKey(t.Elem()) == "regexp.Regexp" {
				m.reg = f.Name()
			}
		}
	}
	// the pattern is stored as it was given
	for _, f := range p.Funcs() {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok {
					if a, ok := s.Addr.(*ssa.FieldAddr); ok && types.Identical(derefT(a.X.Type()), p.role.node) {
						if _, ok := s.Val.(*ssa.Parameter); ok && isStringT(s.Val.Type()) {
							m.pat = st.Field(a.Field).Name()
						}
					}
				}
			}
		}
	}
	for _, n := range strs {
		if n != m.pat && m.key == "" {
			m.key = n
		}
	}
	if m.kind == "" || m.pat == "" || m.key == "" || m.wild == "" || m.reg == "" {
		return "fields of the tree node: kind, pattern, name, wildcards, regexp"
	}
	return ""
}

func (m *matcher) fld(s *State, x *Expr, f string) *Expr {
	st := m.p.role.node.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == f {
			t := st.Field(i).Type()
			return m.it.load(s, m.it.fieldAddr(x, f, pointerTo(t)), t)
		}
	}
	return nil
}

// inList recognises an element of a node list of the receiver.
func (m *matcher) inList(s *State, x *Expr) (list string, idx *Expr) {
	x = strip(x)
	if x == nil || x.Op != OpInit || x.Args[0].Op != OpIndexAddr {
		return "", nil
	}
	b := x.Args[0].Args[0]
	if b.Op == OpInit && b.Args[0].Op == OpFieldAddr && b.Args[0].Args[0] == m.n {
		return b.Args[0].Name, x.Args[0].Args[1]
	}
	return "", nil
}

func (m *matcher) slashIdx(e *Expr) bool {
	if e == nil || e.Op != OpCall || len(e.Args) != 2 || e.Args[0] != m.u {
		return false
	}
	switch e.Name {
	case "strings.Index":
		c, ok := e.Args[1].constStr()
		return ok && c == "/"
	case "strings.IndexByte", "strings.IndexRune":
		c, ok := e.Args[1].constInt()
		return ok && c == '/'
	}
	return false
}

func (m *matcher) cut(e *Expr) bool {
	if e == nil || e.Op != OpCall || e.Name != "strings.Cut" || e.Args[0] != m.u {
		return false
	}
	c, ok := e.Args[1].constStr()
	return ok && c == "/"
}

// lastSegment: 1 the rest of the path has no slash, -1 it has one.
func (m *matcher) lastSegment(s *State) int {
	in := m.it.in
	for _, x := range in.byID {
		if m.slashIdx(x) {
			if t := m.it.truth(s, in.eq(x, in.intc(-1))); t != 0 {
				return t
			}
			if t := m.it.truth(s, in.lss(x, in.intc(0))); t != 0 {
				return t
			}
		}
		if x.Op == OpExtract && x.Name == "2" && m.cut(x.Args[0]) {
			if t := m.it.truth(s, x); t != 0 {
				return -t
			}
		}
		if x.Op == OpCall && x.Name == "strings.Contains" && x.Args[0] == m.u {
			if c, ok := x.Args[1].constStr(); ok && c == "/" {
				if t := m.it.truth(s, x); t != 0 {
					return -t
				}
			}
		}
	}
	return 0
}

func (m *matcher) isSeg(s *State, e *Expr) bool {
	e = stripConv(strip(e))
	if e.Op == OpSlice && e.Args[0] == m.u && m.slashIdx(e.Args[2]) {
		if e.Args[1] == nil {
			return true
		}
		k, ok := e.Args[1].constInt()
		return ok && k == 0
	}
	if e.Op == OpExtract && e.Name == "0" && m.cut(e.Args[0]) {
		return true
	}
	return e == m.u && m.lastSegment(s) == 1
}

func (m *matcher) isRest(e *Expr) bool {
	e = strip(e)
	if e.Op == OpSlice && e.Args[0] == m.u && e.Args[1] != nil {
		x, k := split(e.Args[1])
		if m.slashIdx(x) && k == 1 && (e.Args[2] == nil || e.Args[2] == m.it.in.lenOf(m.u)) {
			return true
		}
	}
	return e.Op == OpExtract && e.Name == "1" && m.cut(e.Args[0])
}

func (m *matcher) isWhole(s *State, e *Expr) bool {
	e = strip(e)
	if e == m.u {
		return true
	}
	// segment + "/" + rest
	var parts []*Expr
	var rec func(e *Expr)
	rec = func(e *Expr) {
		if e.Op == OpBin && e.Name == "+" {
			rec(e.Args[0])
			rec(e.Args[1])
			return
		}
		parts = append(parts, e)
	}
	rec(e)
	if len(parts) != 3 {
		return false
	}
	c, ok := parts[1].constStr()
	return ok && c == "/" && m.isSeg(s, parts[0]) && m.isRest(parts[2])
}

const (
	kStatic = iota
	kRegexp
	kHolder
	kAll
)

// kinds lists the segment kinds x may have.
func (m *matcher) kinds(s *State, x *Expr) []int {
	t := m.fld(s, x, m.kind)
	var out []int
	for k := 0; k < 4; k++ {
		if m.it.truth(s, m.it.in.eq(t, m.it.in.constOf(constInt(k), t.Typ))) != -1 {
			out = append(out, k)
		}
	}
	return out
}

func onlyKind(ks []int, k int) bool { return len(ks) == 1 && ks[0] == k }

func (m *matcher) submatch(e, x *Expr, s *State) bool {
	e = strip(e)
	return e != nil && e.Op == OpCall && e.Name == "(*regexp.Regexp).FindStringSubmatch" && len(e.Args) == 2 &&
		strip(e.Args[0]) == m.fld(s, x, m.reg) && m.isSeg(s, e.Args[1])
}

// regMatched: 1 the regexp of x is known to match with one group per name.
func (m *matcher) regMatched(s *State, x *Expr) int {
	in := m.it.in
	w := in.lenOf(m.fld(s, x, m.wild))
	for _, e := range in.byID {
		if m.submatch(e, x, s) {
			if t := m.it.truth(s, in.eq(in.lenOf(e), in.addc(w, 1))); t != 0 {
				return t
			}
			if m.it.nilness(s, e) == 1 || m.it.truth(s, in.lss(in.lenOf(e), in.intc(1))) == 1 {
				return -1
			}
		}
	}
	return 0
}

// recNil reports whether the search below x is known to have found nothing.
func (m *matcher) recNil(s *State, x *Expr) bool {
	l := s.lists["rec"]
	for i := 0; i+1 < len(l); i += 2 {
		if l[i] == x && m.it.nilness(s, l[i+1]) == 1 {
			return true
		}
	}
	return false
}

// rejected proves that candidate x of the list does not lead to a match.
func (m *matcher) rejected(s *State, x *Expr, list string) bool {
	last := m.lastSegment(s)
	if last == 0 {
		return false
	}
	for _, k := range m.kinds(s, x) {
		if list == m.end && last == -1 {
			// only trailing wildcards count here
			if k == kAll {
				return false
			}
			continue
		}
		switch {
		case list == m.sub && m.recNil(s, x):
		case k == kStatic && m.segEqual(s, x) == -1:
		case k == kRegexp && m.regMatched(s, x) == -1:
		default:
			return false
		}
	}
	return true
}

// segEqual decides whether the text of a static segment equals the path's.
func (m *matcher) segEqual(s *State, x *Expr) int {
	in := m.it.in
	pat := m.fld(s, x, m.pat)
	for f, v := range s.facts {
		if f.Op == OpBin && f.Name == "==" {
			a, b := f.Args[0], f.Args[1]
			if b == pat {
				a, b = b, a
			}
			if a == pat && m.isSeg(s, b) {
				return b2i(v)
			}
		}
	}
	for _, e := range in.byID {
		if m.isSeg(s, e) {
			if t := m.it.truth(s, in.eq(pat, e)); t != 0 {
				return t
			}
		}
	}
	return 0
}

// fits proves that the segment of x fits the path's.
func (m *matcher) fits(s *State, x *Expr) bool {
	for _, k := range m.kinds(s, x) {
		switch {
		case k == kStatic && m.segEqual(s, x) != 1:
			return false
		case k == kRegexp && m.regMatched(s, x) != 1:
			return false
		}
	}
	return true
}

// advance moves the mark of a list past candidates known rejected.
func (m *matcher) advance(s *State, pos token.Pos) {
	for _, l := range []string{m.sub, m.end} {
		k := s.ghost[l]
		if k == nil {
			continue
		}
		seen := map[*Expr]bool{}
		for f := range s.facts {
			m.it.in.walk(f, func(e *Expr) bool {
				if ln, i := m.inList(s, e); ln == l && !seen[e] {
					seen[e] = true
					if d, ok := m.it.exact(s, i, k); ok && d == 0 && m.rejected(s, e, l) {
						m.ok("C10", "candidate", m.p.pos(pos)+l)
						if s.auto["wrote"] != "" {
							m.fail("C09", "stale", pos, s, "the search goes on after parameters were recorded")
						}
						s.ghost[l] = m.it.in.addc(i, 1)
					}
				}
				return true
			})
			if s.ghost[l] != k {
				break
			}
		}
	}
}

// exhausted proves that every candidate of the list was rejected.
func (m *matcher) exhausted(s *State, list string) bool {
	l := m.it.in.lenOf(m.fld(s, m.n, list))
	return m.it.truth(s, m.it.in.lss(s.ghost[list], l)) == -1
}

func matchRule(p *Program, r *Report, prop string) {
	// the recursive functions of the matcher
	it := newInterp(p)
	it.startWith(p.role.match, it.initial(), it.Params(p.role.match))
	var gs []*ssa.Function
	for g := range it.cut {
		gs = append(gs, g)
	}
	sort.Slice(gs, func(i, j int) bool { return gs[i].String() < gs[j].String() })
	if len(gs) == 0 {
		r.missing("recursive matcher below Match")
		return
	}
	for _, g := range gs {
		m := &matcher{p: p, r: r, prop: prop, g: g}
		if x := m.nodeShape(); x != "" {
			r.missing(x)
			return
		}
		m.learn = true
		m.run()
		if m.sub == "" || m.end == "" {
			r.missing("the lists of inner and final nodes of the tree")
			return
		}
		m.learn = false
		m.run()
	}
	if prop != "C31" {
		matchTop(p, r, prop, gs)
	}
}

func (m *matcher) isRec(ev *CallEv) bool { return ev.Fn == m.g }

func (m *matcher) run() {
	p := m.p
	it := newInterp(p)
	m.it = it
	st := it.initial()
	args := it.Params(m.g)
	pos := map[string]int{}
	for i, a := range args {
		switch t := a.Typ.Underlying().(type) {
		case *types.Pointer:
			if types.Identical(t.Elem(), p.role.node) {
				m.n, pos["n"] = a, i
				st.facts[it.in.eq(a, it.in.zero(a.Typ))] = false
			}
		case *types.Map:
			m.params, pos["params"] = a, i
			st.facts[it.in.eq(a, it.in.zero(a.Typ))] = false
		case *types.Basic:
			if t.Info()&types.IsString != 0 {
				if m.u != nil && !m.learn && m.u != a && pos["u"] > 0 {
					m.r.missing("the one text parameter of " + p.fnName(m.g))
					return
				}
				m.u, pos["u"] = a, i
			} else if t.Info()&types.IsInteger != 0 {
				m.level, pos["level"] = a, i
			}
		}
	}
	if m.n == nil || m.u == nil || m.params == nil {
		m.r.missing("node, text and parameter map of " + p.fnName(m.g))
		return
	}
	if !m.learn {
		st.ghost[m.sub] = it.in.intc(0)
		st.ghost[m.end] = it.in.intc(0)
		st.ghost["names"] = it.in.intc(0)
	}
	it.hooks.Override = func(s *State, ev *CallEv) (*Expr, bool) {
		if !m.isRec(ev) || ev.Kind == "defer-stmt" {
			return nil, false
		}
		if m.learn {
			if l, _ := m.inList(s, ev.Args[pos["n"]]); l != "" {
				m.sub = l
			}
		}
		return it.fresh(s, ev.Fr, ev.Instr, "res", Expr{Op: OpRes, Name: "match", Args: []*Expr{ev.Args[pos["n"]]}, Typ: pointerTo(p.role.node)}), true
	}
	it.hooks.After = func(s *State, ev *CallEv, res *Expr) {
		if !m.isRec(ev) || m.learn {
			return
		}
		c := strip(ev.Args[pos["n"]])
		m.ok("C09", "recursion", p.pos(ev.Pos))
		l, i := m.inList(s, c)
		if l != m.sub || i == nil {
			m.fail("C10", "candidate", ev.Pos, s, "the search goes on below %s, which is no candidate of this level", c)
			return
		}
		if s.auto["wrote"] != "" {
			m.fail("C09", "early", ev.Pos, s, "parameters are recorded before it is known that the rest of the path matches")
		}
		if !m.isRest(ev.Args[pos["u"]]) {
			m.fail("C10", "rest", ev.Pos, s, "the search below a segment gets %s instead of the rest of the path", ev.Args[pos["u"]])
		}
		if ev.Args[pos["params"]] != m.params {
			m.fail("C09", "map", ev.Pos, s, "the search below a segment records into %s instead of the request's parameters", ev.Args[pos["params"]])
		}
		if m.level != nil {
			lv := ev.Args[pos["level"]]
			d, ok := it.exact(s, lv, m.level)
			ks := m.kinds(s, c)
			switch {
			case onlyKind(ks, kAll) && ok && d == 1:
			case !has(ks, kAll) && ok && d == 0:
			default:
				m.fail("C09", "number", ev.Pos, s, "wildcards below are numbered from %s", lv)
			}
		}
		s.push("rec", c, res)
	}
	it.hooks.Store = func(s *State, fr *Frame, addr, val *Expr, in ssa.Instruction) {
		if addr.Op == OpFieldAddr && types.Identical(derefT(addr.Args[0].Typ), p.role.node) {
			m.fail("C10", "tree", instrPos(in), s, "matching modifies the tree")
		}
	}
	it.hooks.MapUpdate = func(s *State, fr *Frame, mp, k, v *Expr, in ssa.Instruction) {
		if m.learn || mp != m.params {
			return
		}
		m.write(s, k, v, instrPos(in))
	}
	it.hooks.Assume = func(s *State, e *Expr, val bool) bool {
		if !m.learn && val && e.Op == OpBin && e.Name == "==" {
			if c, ok := e.Args[1].constStr(); ok && c == "_" {
				m.named(s, e.Args[0])
			}
		}
		return true
	}
	it.hooks.Arrive = func(s *State, fr *Frame, blk *ssa.BasicBlock, back bool) {
		if m.learn || !back {
			return
		}
		m.advance(s, instrPos(blk.Instrs[0]))
		// a match found stays pending until it is returned
		l := s.lists["rec"]
		delete(s.lists, "rec")
		for i := 0; i+1 < len(l); i += 2 {
			if it.nilness(s, l[i+1]) != 1 {
				s.push("rec", l[i], l[i+1])
			}
		}
	}
	for _, e := range it.startWith(m.g, st, args) {
		if e.panic {
			continue
		}
		if m.learn {
			if l, _ := m.inList(e.st, e.vals[0]); l != "" {
				m.end = l
			}
			continue
		}
		m.exit(&e)
	}
	if !m.learn {
		m.r.absorb(it, p.fnName(m.g))
	}
}

func has(l []int, k int) bool {
	for _, x := range l {
		if x == k {
			return true
		}
	}
	return false
}

// settle requires that every search below a candidate other than keep found nothing.
func (m *matcher) settle(s *State, keep *Expr, pos token.Pos) {
	l := s.lists["rec"]
	for i := 0; i+1 < len(l); i += 2 {
		if l[i+1] != keep && m.it.nilness(s, l[i+1]) != 1 {
			m.fail("C10", "lost", pos, s, "a match found below a candidate is dropped")
			m.fail("C09", "lost", pos, s, "the captures of a match that is dropped stay recorded")
		}
	}
}

// nameOf recognises a name of a regexp segment: the node and the position.
func (m *matcher) nameOf(s *State, e *Expr) (x, idx *Expr) {
	e = strip(e)
	if e.Op != OpInit || e.Args[0].Op != OpIndexAddr {
		return nil, nil
	}
	b := e.Args[0].Args[0]
	if b.Op == OpInit && b.Args[0].Op == OpFieldAddr && b.Args[0].Name == m.wild && types.Identical(derefT(b.Args[0].Args[0].Typ), m.p.role.node) {
		return b.Args[0].Args[0], e.Args[0].Args[1]
	}
	return nil, nil
}

// named notes that a name of a regexp segment has been dealt with.
func (m *matcher) named(s *State, e *Expr) {
	x, i := m.nameOf(s, e)
	if x == nil {
		return
	}
	if d, ok := m.it.exact(s, i, s.ghost["names"]); ok && d == 0 {
		s.ghost["names"] = m.it.in.addc(i, 1)
	}
}

// owner notes the node a record belongs to.
func (m *matcher) owner(s *State, x *Expr, pos token.Pos) {
	s.auto["wrote"] += ""
	for _, o := range s.lists["owner"] {
		if o != x {
			m.fail("C09", "owner", pos, s, "captures of two different candidates are recorded: %s and %s", o, x)
		}
	}
	if len(s.lists["owner"]) == 0 {
		s.push("owner", x)
	}
}

func (m *matcher) write(s *State, k, v *Expr, pos token.Pos) {
	in := m.it.in
	m.ok("C09", "write", m.p.pos(pos))
	us := m.it.str("_")
	k = strip(k)
	if v == nil {
		m.fail("C09", "write", pos, s, "a recorded parameter is deleted")
		return
	}
	if x, i := m.nameOf(s, k); x != nil {
		s.auto["wrote"] = "names"
		m.owner(s, x, pos)
		m.ok("C31", "group", m.p.pos(pos))
		if m.it.truth(s, in.eq(k, us)) != -1 {
			m.fail("C09", "ignored", pos, s, "a capture is recorded although its name may be '_'")
		}
		val := strip(v)
		good := false
		if val.Op == OpInit && val.Args[0].Op == OpIndexAddr && m.submatch(val.Args[0].Args[0], x, s) {
			d, ok := m.it.exact(s, val.Args[0].Args[1], i)
			good = ok && d == 1
		}
		if !good {
			m.fail("C09", "group", pos, s, "name %s of a regexp segment is recorded with %s instead of its own group", k, v)
			m.fail("C31", "group", pos, s, "name %s of a regexp segment is recorded with %s instead of its own group", k, v)
		}
		m.named(s, k)
		return
	}
	if k.Op == OpInit && k.Args[0].Op == OpFieldAddr && k.Args[0].Name == m.key && types.Identical(derefT(k.Args[0].Args[0].Typ), m.p.role.node) {
		x := k.Args[0].Args[0]
		s.auto["wrote"] = "name"
		m.owner(s, x, pos)
		if m.it.truth(s, in.eq(k, us)) != -1 {
			m.fail("C09", "ignored", pos, s, "a capture is recorded although its name may be '_'")
		}
		ks := m.kinds(s, x)
		l, _ := m.inList(s, x)
		switch {
		case onlyKind(ks, kHolder):
			if !m.isSeg(s, v) {
				m.fail("C09", "text", pos, s, "a placeholder is recorded with %s instead of the segment it matched", v)
			}
		case onlyKind(ks, kAll):
			if m.it.truth(s, in.eq(k, m.it.str(""))) != -1 {
				m.fail("C09", "unnamed", pos, s, "an unnamed wildcard may be recorded under an empty name")
			}
			if !(m.isWhole(s, v) || l == m.sub && m.isSeg(s, v)) {
				m.fail("C09", "text", pos, s, "a wildcard is recorded with %s instead of the text it matched", v)
			}
		default:
			m.fail("C09", "kind", pos, s, "a capture is recorded for a segment that may be neither placeholder nor wildcard")
		}
		return
	}
	// number of an unnamed wildcard
	if k.Op == OpBin && k.Name == "+" || k.Op == OpCall {
		okKey := m.level == nil
		in.walk(k, func(e *Expr) bool {
			if e == m.level {
				okKey = true
			}
			return true
		})
		if s, ok := k.Args[0].constStr(); k.Op == OpBin && (!ok || s != "*") {
			okKey = false
		}
		if k.Op == OpBin && !(k.Args[1].Op == OpCall && strings.HasPrefix(k.Args[1].Name, "strconv.") && stripConv(k.Args[1].Args[0]) == m.level) {
			okKey = false
		}
		if okKey {
			s.auto["wrote"] = "number"
			s.push("star", v)
			return
		}
	}
	m.fail("C09", "key", pos, s, "a parameter is recorded under %s, which is no name of a segment", k)
}

func (m *matcher) exit(e *exit) {
	s, it := e.st, m.it
	in := it.in
	v := strip(e.vals[0])
	m.ok("C09", "exit", m.p.pos(e.pos)+v.String())
	m.ok("C10", "exit", m.p.pos(e.pos)+v.String())
	m.advance(s, e.pos)
	last := m.lastSegment(s)
	if last == 0 {
		m.fail("C10", "level", e.pos, s, "it is not known whether this is the last segment of the path")
		return
	}
	wrote := s.auto["wrote"]
	if it.nilness(s, v) == 1 {
		if wrote != "" {
			m.fail("C09", "stale", e.pos, s, "parameters are recorded although nothing matched")
		}
		m.settle(s, nil, e.pos)
		if last == -1 && !m.exhausted(s, m.sub) {
			m.fail("C10", "exhausted", e.pos, s, "the search ends without having rejected every candidate for this segment")
		}
		if !m.exhausted(s, m.end) {
			m.fail("C10", "exhausted-end", e.pos, s, "the search ends without having rejected every final segment of this level")
		}
		return
	}
	var x *Expr
	list, idx := m.inList(s, v)
	switch {
	case v.Op == OpRes && v.Name == "match":
		x = strip(v.Args[0])
		list, idx = m.inList(s, x)
		if it.nilness(s, v) != -1 {
			m.fail("C10", "backtrack", e.pos, s, "the result of the search below a candidate is returned although it may have found nothing: the other candidates are not tried")
			m.fail("C09", "stale", e.pos, s, "the result of the search below a candidate is returned although it may have found nothing")
		}
		m.settle(s, v, e.pos)
		if last != -1 || list != m.sub {
			m.fail("C10", "level", e.pos, s, "a branch is entered on the last segment of the path")
		}
	case list == m.end:
		x = v
		m.settle(s, nil, e.pos)
		if last == -1 {
			if !onlyKind(m.kinds(s, x), kAll) {
				m.fail("C10", "accept", e.pos, s, "a final segment that is no wildcard is selected although the path goes on")
			}
			if !m.exhausted(s, m.sub) {
				m.fail("C10", "order", e.pos, s, "a trailing wildcard is selected before every other candidate was rejected")
			}
		}
	default:
		m.fail("C10", "result", e.pos, s, "the node returned is %s, which is no candidate of this level", v)
		m.fail("C09", "result", e.pos, s, "the node returned is %s, which is no candidate of this level", v)
		return
	}
	if d, ok := it.exact(s, idx, s.ghost[list]); !ok || d != 0 {
		m.fail("C10", "order", e.pos, s, "a candidate is selected although an earlier one is not known to be rejected")
	}
	if has(m.kinds(s, x), kRegexp) {
		m.ok("C31", "accept", m.p.pos(e.pos)+x.String())
		if m.regMatched(s, x) != 1 {
			m.fail("C31", "accept", e.pos, s, "a regexp segment is selected although it may not have captured one group per name")
		}
	}
	if !(list == m.end && last == -1) && !m.fits(s, x) {
		m.fail("C10", "accept", e.pos, s, "a candidate is selected although its segment may not fit the path's")
	}
	// the record of x
	for _, o := range s.lists["owner"] {
		if o != x {
			m.fail("C09", "owner", e.pos, s, "the captures recorded belong to %s, the segment selected is %s", o, x)
		}
	}
	ks := m.kinds(s, x)
	name := m.fld(s, x, m.key)
	isUs := it.truth(s, in.eq(name, it.str("_"))) == 1
	// only the cases the recorded captures do not rule out
	for _, k := range ks {
		switch k {
		case kStatic:
			if wrote != "" {
				m.fail("C09", "static", e.pos, s, "a static segment records a parameter")
			}
		case kHolder:
			if wrote != "name" && !isUs {
				m.fail("C09", "missing", e.pos, s, "the placeholder selected is not recorded")
			}
		case kAll:
			switch wrote {
			case "name":
			case "number":
				if it.truth(s, in.eq(name, it.str(""))) != 1 {
					m.fail("C09", "unnamed", e.pos, s, "a wildcard that may be named is recorded by number")
				}
				for _, t := range s.lists["star"] {
					if !(m.isWhole(s, t) || list == m.sub && m.isSeg(s, t)) {
						m.fail("C09", "text", e.pos, s, "a wildcard is recorded with %s instead of the text it matched", t)
					}
				}
			default:
				if !isUs {
					m.fail("C09", "missing", e.pos, s, "the wildcard selected is not recorded")
				}
			}
		case kRegexp:
			n := in.lenOf(m.fld(s, x, m.wild))
			if it.truth(s, in.lss(s.ghost["names"], n)) != -1 {
				m.fail("C09", "missing", e.pos, s, "not every name of the regexp segment selected is recorded")
			}
			if wrote != "" && wrote != "names" {
				m.fail("C09", "kind", e.pos, s, "a regexp segment is recorded like a placeholder")
			}
		}
	}
}

// matchTop checks Match itself, given what the recursive matcher does.
func matchTop(p *Program, r *Report, prop string, gs []*ssa.Function) {
	isG := map[*ssa.Function]bool{}
	for _, g := range gs {
		isG[g] = true
	}
	it := newInterp(p)
	st := it.initial()
	args := it.Params(p.role.match)
	it.hooks.Opaque = func(f *ssa.Function, ev *CallEv) bool { return isG[f] }
	it.hooks.Call = func(s *State, ev *CallEv) {
		if !isG[ev.Fn] {
			return
		}
		s.auto["calls"] += "x"
		for _, a := range ev.Args {
			switch a.Typ.Underlying().(type) {
			case *types.Pointer:
				if a != args[0] {
					r.fail("match-result", "receiver", ev.Pos, s, "Match searches %s instead of its own tree", a)
				}
			case *types.Map:
				s.push("map", a)
				if a.Op != OpMake {
					r.fail("match-result", "map", ev.Pos, s, "Match records parameters into %s instead of a new map", a)
				}
			}
		}
	}
	it.hooks.Override = func(s *State, ev *CallEv) (*Expr, bool) {
		if !isG[ev.Fn] {
			return nil, false
		}
		return it.fresh(s, ev.Fr, ev.Instr, "res", Expr{Op: OpRes, Name: "match", Typ: pointerTo(p.role.node)}), true
	}
	it.hooks.After = func(s *State, ev *CallEv, res *Expr) {
		if isG[ev.Fn] {
			s.push("res", res)
		}
	}
	for _, e := range it.startWith(p.role.match, st, args) {
		if e.panic {
			continue
		}
		s := e.st
		r.ok("match-result", p.pos(e.pos)+e.vals[0].String())
		if it.nilness(s, args[0]) == 1 && it.nilness(s, e.vals[0]) == 1 {
			continue
		}
		if s.auto["calls"] != "x" {
			r.fail("match-result", "calls", e.pos, s, "Match searches the tree %d times", len(s.auto["calls"]))
			continue
		}
		res := s.lists["res"][0]
		if strip(e.vals[0]) != res && !(it.nilness(s, res) == 1 && it.nilness(s, e.vals[0]) == 1) {
			r.fail("match-result", "node", e.pos, s, "Match returns %s instead of the node found", e.vals[0])
		}
		if prop == "C09" && it.nilness(s, res) != 1 && len(e.vals) > 1 && (len(s.lists["map"]) != 1 || stripChange(e.vals[1]) != s.lists["map"][0]) {
			r.fail("match-result", "params", e.pos, s, "Match returns parameters %s instead of those of its search", e.vals[1])
		}
	}
	r.absorb(it, "Match")
}

// ---- insertion ----

// c10Insert checks the functions that add a node to a list of another node.
func c10Insert(p *Program, r *Report, order bool) {
	m := &matcher{p: p, r: r}
	if x := m.nodeShape(); x != "" {
		r.missing(x)
		return
	}
	for i, want := range []string{"_PATTERN_STATIC", "_PATTERN_REGEXP", "_PATTERN_HOLDER", "_PATTERN_MATCH_ALL"} {
		if c, ok := p.water.Members[want].(*ssa.NamedConst); ok {
			if k, ok := (&Expr{Op: OpConst, Const: c.Value.Value, Typ: c.Type()}).constInt(); order && ok && k != int64(i) {
				r.fail("kinds", want, c.Pos(), nil, "segment kind %s is numbered %d: static, regexp, placeholder and wildcard must be numbered in this order", want, k)
			}
		}
	}
	// functions that store a node list
	for _, f := range p.Funcs() {
		if !storesNodeList(p, f) {
			continue
		}
		r.absorbReport(c10InsertIn(p, r.Prop, f, m.kind, order, 0))
	}
}

// c10InsertIn checks the insertions of f, by themselves or, when that cannot
// decide them, as part of every function that calls f.
func c10InsertIn(p *Program, prop string, f *ssa.Function, kind string, order bool, depth int) *Report {
	r := newReport(p, prop)
	c10InsertFn(p, r, f, kind, order)
	if len(r.Violations) == 0 || depth == 3 {
		return r
	}
	callers := callersOf(p, f)
	if len(callers) == 0 || p.addressTaken(f) {
		return r
	}
	all := newReport(p, prop)
	for _, c := range callers {
		if c == f {
			return r
		}
		all.absorbReport(c10InsertIn(p, prop, c, kind, order, depth+1))
	}
	if len(all.Violations) > 0 || all.Obligations["insert"] == 0 {
		return r
	}
	return all
}

func storesNodeList(p *Program, f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if s, ok := in.(*ssa.Store); ok {
				if a, ok := s.Addr.(*ssa.FieldAddr); ok && types.Identical(derefT(a.X.Type()), p.role.node) && isNodeList(p, s.Val.Type()) {
					return true
				}
			}
		}
	}
	return false
}

func isNodeList(p *Program, t types.Type) bool {
	sl, ok := t.Underlying().(*types.Slice)
	return ok && types.Identical(derefT(sl.Elem()), p.role.node)
}

func c10InsertFn(p *Program, r *Report, f *ssa.Function, kind string, order bool) {
	it := newInterp(p)
	st := it.initial()
	args := it.Params(f)
	in := it.in
	for _, a := range args {
		if derefT(a.Typ) != nil {
			st.facts[in.eq(a, in.zero(a.Typ))] = false
		}
	}
	name := p.fnName(f)
	kindOf := func(s *State, x *Expr) *Expr {
		t := types.Typ[types.Uint8]
		ns := p.role.node.Underlying().(*types.Struct)
		for i := 0; i < ns.NumFields(); i++ {
			if ns.Field(i).Name() == kind {
				return it.load(s, it.fieldAddr(x, kind, pointerTo(ns.Field(i).Type())), ns.Field(i).Type())
			}
		}
		_ = t
		return nil
	}
	// nodes come out of node constructors
	it.hooks.Opaque = func(g *ssa.Function, ev *CallEv) bool {
		rs := g.Signature.Results()
		return rs.Len() == 1 && types.Identical(derefT(rs.At(0).Type()), p.role.node) && !storesNodeList(p, g)
	}
	elem := func(base, i *Expr) *Expr {
		return in.mk(Expr{Op: OpInit, Args: []*Expr{it.indexAddr(base, i, nil)}})
	}
	_ = elem
	// before: all elements in front of the mark are of no later kind than x
	notAfter := func(s *State, c, x *Expr) bool {
		return it.truth(s, in.lss(kindOf(s, x), kindOf(s, c))) == -1
	}
	it.hooks.Arrive = func(s *State, fr *Frame, blk *ssa.BasicBlock, back bool) {
		key := "before:" + itoa(fr.id) + ":" + itoa(blk.Index)
		if !back {
			s.ghost[key] = in.intc(0)
			return
		}
		k := s.ghost[key]
		if k == nil {
			return
		}
		for f := range s.facts {
			done := false
			in.walk(f, func(e *Expr) bool {
				if done || e.Op != OpInit || e.Args[0].Op != OpIndexAddr || !types.Identical(derefT(e.Typ), p.role.node) {
					return true
				}
				i := e.Args[0].Args[1]
				if d, ok := it.exact(s, i, k); !ok || d != 0 {
					return true
				}
				for _, x := range it.in.byID {
					if isNewNode(p, x) && notAfter(s, e, x) {
						s.ghost[key] = in.addc(i, 1)
						done = true
						return false
					}
				}
				return true
			})
			if done {
				break
			}
		}
	}
	place := func(s *State, x, i, old, c *Expr, list string, pos token.Pos) {
		if !isNewNode(p, x) {
			r.fail("insert", name, pos, s, "the node inserted is %s, which is not a new node", x)
		}
		if !order {
			return
		}
		n := in.lenOf(old)
		if i == nil {
			i = n
		}
		// elements in front: mark reaches i
		front := it.truth(s, in.lss(in.intc(0), i)) == -1
		for k, g := range s.ghost {
			front = front || strings.HasPrefix(k, "before:") && it.truth(s, in.lss(g, i)) == -1
		}
		if !front {
			r.fail("insert", name+"-front", pos, s, "a node is inserted at %s of %s although an element in front of it may be of a later kind", i, list)
		}
		if it.truth(s, in.lss(i, n)) != -1 {
			if c == nil {
				c = it.load(s, it.indexAddr(old, i, nil), pointerTo(p.role.node))
			}
			earlier := it.truth(s, in.lss(kindOf(s, x), kindOf(s, c))) == 1
			for f := range s.facts {
				in.walk(f, func(e *Expr) bool {
					if e.Op == OpInit && e.Args[0].Op == OpIndexAddr && e.Args[0].Args[0] == old && !earlier {
						d, ok := it.exact(s, e.Args[0].Args[1], i)
						earlier = ok && d == 0 && it.truth(s, in.lss(kindOf(s, x), kindOf(s, e))) == 1
					}
					return true
				})
			}
			if !earlier {
				r.fail("insert", name+"-behind", pos, s, "a node is inserted at %s of %s in front of an element of the same or an earlier kind", i, list)
			}
		}
	}
	it.hooks.Store = func(s *State, fr *Frame, addr, val *Expr, instr ssa.Instruction) {
		pos := instrPos(instr)
		if l := s.lists["shift"]; len(l) == 4 && addr.Op == OpIndexAddr && addr.Args[0] == l[1] {
			// the new node takes the place made for it
			if d, ok := it.exact(s, addr.Args[1], l[2]); ok && d == 0 {
				delete(s.lists, "shift")
				s.auto["shift"] = ""
				place(s, strip(val), l[2], l[0], l[3], "a list", pos)
				return
			}
		}
		if addr.Op == OpIndexAddr && isNodeList(p, addr.Args[0].Typ) {
			b := stripChange(addr.Args[0])
			for b.Op == OpAppend || b.Op == OpSlice {
				b = stripChange(b.Args[0])
			}
			if b.Op == OpInit {
				r.fail("insert", name+"-over", pos, s, "element %s of the list %s is overwritten: the node in its place is lost", addr.Args[1], b)
			}
			return
		}
		if addr.Op != OpFieldAddr || !types.Identical(derefT(addr.Args[0].Typ), p.role.node) || !isNodeList(p, val.Typ) {
			return
		}
		old := it.load(s, addr, derefT(addr.Typ))
		r.ok("insert", name+" "+addr.Name)
		if v := stripChange(val); v.Op == OpAppend && v.Args[0] == old && v.Args[1].Op == OpList && len(v.Args[1].Args) == 1 && v.Args[1].Args[0].isNil() {
			// room for one more: the rest is shifted next
			s.push("shift", old, v)
			s.auto["shift"] = "grown"
			return
		}
		x, i := insertion(it, stripChange(val), old)
		if x == nil {
			r.fail("insert", name, pos, s, "the list %s of a node becomes %s, which is not its old content with one node inserted", addr.Name, val)
			return
		}
		place(s, x, i, old, nil, addr.Name, pos)
	}
	it.hooks.Call = func(s *State, ev *CallEv) {
		if ev.Callee != nil || ev.Fn != nil || ev.Method != "copy" || len(ev.Args) != 2 || !isNodeList(p, ev.Args[0].Typ) {
			return
		}
		d, c := stripChange(ev.Args[0]), stripChange(ev.Args[1])
		if l := s.lists["shift"]; len(l) == 2 && d.Op == OpSlice && d.Args[0] == l[1] && d.Args[2] == nil && d.Args[1] != nil {
			from := in.intc(0)
			if c.Op == OpSlice && (c.Args[0] == l[1] || c.Args[0] == l[0]) && c.Args[2] == nil && c.Args[1] != nil {
				from, c = c.Args[1], c.Args[0]
			}
			if k, ok := it.exact(s, d.Args[1], from); ok && k == 1 && (c == l[1] || c == l[0]) {
				s.push("shift", from, it.load(s, it.indexAddr(l[0], from, nil), pointerTo(p.role.node)))
				return
			}
		}
		r.fail("insert", name, ev.Pos, s, "nodes of %s are moved over %s", c, d)
	}
	it.hooks.Exit = func(fr *Frame, e *exit) {
		if fr.fn == f && !e.panic && e.st.auto["shift"] != "" {
			r.fail("insert", name, e.pos, e.st, "a list of nodes is left with a gap")
		}
	}
	it.startWith(f, st, args)
	r.absorb(it, name)
}

func isNewNode(p *Program, x *Expr) bool {
	return (x.Op == OpAlloc || x.Op == OpRes) && types.Identical(derefT(x.Typ), p.role.node)
}

// insertion recognises old with x inserted at position i (nil: at the end).
func insertion(it *Interp, v, old *Expr) (x, i *Expr) {
	one := func(e *Expr) *Expr {
		if e.Op == OpList && len(e.Args) == 1 {
			return e.Args[0]
		}
		return nil
	}
	isOld := func(e *Expr) bool { return e == old }
	if v.Op == OpAppend && isOld(v.Args[0]) {
		return one(v.Args[1]), nil
	}
	if v.Op == OpCall && v.Name == "slices.Insert" || v.Op == OpRes && strings.HasPrefix(v.Name, "slices.Insert") {
		if isOld(v.Args[0]) && len(v.Args) == 3 {
			return one(v.Args[2]), v.Args[1]
		}
	}
	// the pieces the new list is put together from
	var flat func(e *Expr, fresh bool) ([]*Expr, bool)
	flat = func(e *Expr, fresh bool) ([]*Expr, bool) {
		e = stripChange(e)
		switch {
		case e.Op == OpList || e.isNil():
			return e.Args, true
		case e.Op == OpAppend:
			a, ok := flat(e.Args[0], true)
			b, ok2 := flat(e.Args[1], false)
			if base := stripChange(e.Args[0]); ok && base.Op == OpSlice && base.Args[3] == nil {
				// appended to in place: what is added must have been copied
				if y := stripChange(e.Args[1]); y.Op != OpList && y.Op != OpAppend || fresh && len(b) > 0 {
					return nil, false
				}
			}
			return append(append([]*Expr(nil), a...), b...), ok && ok2
		case e.Op == OpSlice && isOld(e.Args[0]) || isOld(e):
			return []*Expr{e}, true
		}
		return nil, false
	}
	l, ok := flat(v, false)
	if !ok {
		return nil, nil
	}
	isPart := func(e *Expr) bool { return isOld(e) || e.Op == OpSlice && isOld(e.Args[0]) }
	empty := func(e *Expr) bool {
		return e.Op == OpSlice && zeroBound(e.Args[1]) && e.Args[2] != nil && zeroBound(e.Args[2])
	}
	var kept []*Expr
	for _, e := range l {
		if !isPart(e) || !empty(e) {
			kept = append(kept, e)
		}
	}
	bound := func(e *Expr, k int) *Expr { // nil when open
		if e.Op != OpSlice {
			return nil
		}
		return e.Args[k]
	}
	switch {
	case len(kept) == 2 && !isPart(kept[0]) && isPart(kept[1]) && zeroBound(bound(kept[1], 1)) && bound(kept[1], 2) == nil:
		return kept[0], it.in.intc(0)
	case len(kept) == 2 && isPart(kept[0]) && !isPart(kept[1]) && zeroBound(bound(kept[0], 1)) && bound(kept[0], 2) == nil:
		return kept[1], nil
	case len(kept) == 3 && isPart(kept[0]) && !isPart(kept[1]) && isPart(kept[2]) && zeroBound(bound(kept[0], 1)) && bound(kept[2], 2) == nil:
		if i := bound(kept[0], 2); i != nil && i == bound(kept[2], 1) {
			return kept[1], i
		}
	}
	return nil, nil
}

func zeroBound(e *Expr) bool {
	if e == nil {
		return true
	}
	k, ok := e.constInt()
	return ok && k == 0
}

// addressTaken reports whether f is used as a value, so that it may be called
// from anywhere.
func (p *Program) addressTaken(f *ssa.Function) bool {
	for _, g := range p.Funcs() {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				for i, op := range in.Operands(nil) {
					if op == nil || *op != ssa.Value(f) {
						continue
					}
					if c, ok := in.(ssa.CallInstruction); ok && i == 0 && c.Common().StaticCallee() == f {
						continue
					}
					return true
				}
			}
		}
	}
	return false
}
