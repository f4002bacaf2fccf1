package main

import (
	"go/token"
	"go/types"
	"net/url"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C39", "The text, list and map accessors of form values, route parameters and cookies are interpreted with symbolic sources. Text: on every path the result is the value stored under exactly the given name in its own source (form values trimmed and the form known parsed), empty or the default only where the name is known absent, the escaped form escaped. "+
		"Lists: the result has one trimmed element for every stored value, in order: a loop over the whole list is summarised; where it is written in another way, lists of one to three values are followed. "+
		"Maps: the texts of the keys are constants, one for each way a key can relate to the name, their values symbolic: the entries of the result must be the trimmed first values of exactly the keys of the form name[sub], under sub; the default is the result only if there is no such key.",
		map[string]int{"accessor": 9, "exit": 10, "key": 40}, c39)
}

func c39(p *Program, r *Report) {
	parse := p.method(p.water, "Context", "ParseFormOrMultipartForm")
	if parse == nil {
		r.missing("method ParseFormOrMultipartForm")
		return
	}
	flag := p.parsedFlag(parse)
	sizes := p.sizes()
	for _, t := range []struct{ name, src string }{{"Query", "query"}, {"DefaultQuery", "default"}, {"Cookie", "cookie"}, {"CookieEscape", "escaped"}, {"Param", "ctxparam"}} {
		f := p.method(p.water, "Context", t.name)
		if f == nil {
			r.missing("Context." + t.name)
			continue
		}
		r.ok("accessor", p.fnName(f))
		c27one(p, r, f, parse, flag, t.src, sizes)
	}
	for _, n := range []string{"QueryArray", "DefaultQueryArray"} {
		f := p.method(p.water, "Context", n)
		if f == nil {
			r.missing("Context." + n)
			continue
		}
		r.ok("accessor", p.fnName(f))
		a := &listAccessor{p: p, f: f, parse: parse, flag: flag, name: p.fnName(f)}
		if why := a.run(r, -1); why != "" {
			for k := 0; k <= 3; k++ {
				a.run(r, k)
			}
		}
	}
	for _, n := range []string{"QueryMap", "DefaultQueryMap"} {
		f := p.method(p.water, "Context", n)
		if f == nil {
			r.missing("Context." + n)
			continue
		}
		r.ok("accessor", p.fnName(f))
		for _, name := range []string{"k", "ids"} {
			all := formKeys(name)
			c39map(p, r, f, parse, flag, name, nil)
			c39map(p, r, f, parse, flag, name, all)
			var rev, none []formKey
			for i := range all {
				rev = append(rev, all[len(all)-1-i])
				if all[i].sub == "" {
					none = append(none, all[i])
				}
			}
			c39map(p, r, f, parse, flag, name, rev)
			c39map(p, r, f, parse, flag, name, none)
			for _, k := range all {
				c39map(p, r, f, parse, flag, name, []formKey{k})
			}
		}
	}
}

// formParsed reports whether the form is known parsed in s.
func (it *Interp) formParsed(s *State, ctx *Expr, flag string) bool {
	if s.auto["parsed"] != "" {
		return true
	}
	return flag != "" && it.truth(s, it.load(s, it.fieldAddr(ctx, flag, pointerTo(types.Typ[types.Bool])), types.Typ[types.Bool])) == 1
}

// formOf is the parsed form the request of a context holds.
func (p *Program) formOf(it *Interp, s *State, ctx *Expr) *Expr {
	var rt types.Type
	for i := 0; i < p.role.ctxFields.NumFields(); i++ {
		if f := p.role.ctxFields.Field(i); f.Name() == "Request" {
			rt = f.Type()
		}
	}
	if rt == nil {
		return nil
	}
	st, ok := derefT(rt).Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	req := it.load(s, it.fieldAddr(ctx, "Request", pointerTo(rt)), rt)
	for i := 0; i < st.NumFields(); i++ {
		if f := st.Field(i); f.Name() == "Form" {
			return it.load(s, it.fieldAddr(req, "Form", pointerTo(f.Type())), f.Type())
		}
	}
	return nil
}

// trimmer reports whether a function trims its argument.
func (p *Program) trimmer(f *ssa.Function) bool {
	if fullName(f) == "strings.TrimSpace" {
		return true
	}
	if !p.inModule(f) || len(f.Blocks) != 1 || len(f.Params) != 1 {
		return false
	}
	for _, i := range f.Blocks[0].Instrs {
		if r, ok := i.(*ssa.Return); ok && len(r.Results) == 1 {
			if c, ok := r.Results[0].(*ssa.Call); ok && len(c.Call.Args) == 1 && c.Call.Args[0] == f.Params[0] {
				g := c.Call.StaticCallee()
				return g != nil && fullName(g) == "strings.TrimSpace"
			}
		}
	}
	return false
}

type listAccessor struct {
	p        *Program
	f, parse *ssa.Function
	flag     string
	name     string
}

// run follows the accessor for lists of n values, or of any length if n is
// negative: then it reports nothing, and returns what it could not show.
func (a *listAccessor) run(r *Report, n int) string {
	p := a.p
	it := newInterp(p)
	st := it.initial()
	args := it.Params(a.f)
	st.facts[it.in.eq(args[0], it.in.zero(args[0].Typ))] = false
	it.hooks.Opaque = func(g *ssa.Function, ev *CallEv) bool { return g == a.parse }
	it.hooks.Call = func(s *State, ev *CallEv) {
		if ev.Fn == a.parse && ev.Kind != "defer-stmt" || parsesForm(ev) {
			s.auto["parsed"] = "1"
		}
	}
	key := args[1]
	var elems []*Expr
	for i := 0; i < n; i++ {
		elems = append(elems, it.param("value "+itoa(i), types.Typ[types.String]))
	}
	strs := types.NewSlice(types.Typ[types.String])
	if n < 0 {
		it.bulkConv = p.trimmer
	} else {
		it.hooks.After = func(s *State, ev *CallEv, _ *Expr) {
			if ev.Fn != a.parse || ev.Kind == "defer-stmt" {
				return
			}
			form := p.formOf(it, s, args[0])
			if form == nil {
				return
			}
			it.assume(s, it.in.eq(form, it.in.zero(form.Typ)), false)
			if n == 0 {
				v, ok := it.lookup(s, form, key, strs)
				it.assume(s, it.in.eq(it.in.lenOf(v), it.in.intc(0)), true)
				it.assume(s, ok, false)
				return
			}
			s.mem[it.in.mk(Expr{Op: OpMapCell, Args: []*Expr{stripChange(form), key}, Typ: pointerTo(strs)})] = it.in.mk(Expr{Op: OpList, Args: elems[:n], Typ: strs})
		}
	}
	why := ""
	fail := func(pos token.Pos, s *State, format string, x ...any) {
		if n >= 0 {
			r.fail("accessor", a.name, pos, s, format, x...)
		}
		why = format
	}
	exits := 0
	for _, e := range it.startWith(a.f, st, args) {
		if e.panic {
			continue
		}
		exits++
		s := e.st
		if n >= 0 {
			r.ok("exit", a.name+" "+itoa(n)+p.pos(e.pos)+itoa(len(s.facts)))
		}
		if !it.formParsed(s, args[0], a.flag) {
			fail(e.pos, s, "%s: the form may not have been parsed", a.name)
			continue
		}
		v := e.vals[0]
		form := p.formOf(it, s, args[0])
		val, has := it.lookup(s, form, key, strs)
		absent := n == 0 || n < 0 && it.formPresence(s, key) == -1
		if len(args) > 2 && v == args[2] {
			if !absent {
				fail(e.pos, s, "%s returns the default although the name may be present", a.name)
			}
			continue
		}
		if l := it.in.lenOf(it.snapshot(s, v)); v.isNil() || it.truth(s, it.in.eq(l, it.in.intc(0))) == 1 {
			none := it.truth(s, it.in.eq(it.in.lenOf(val), it.in.intc(0))) == 1
			switch {
			case n > 0 || !absent && !none:
				fail(e.pos, s, "%s returns an empty list although the name may be present", a.name)
			case len(args) > 2 && absent && it.truth(s, has) != 1:
				fail(e.pos, s, "%s returns an empty list instead of the default", a.name)
			}
			continue
		}
		c := it.snapshot(s, v)
		if n < 0 {
			for c.Op == OpAppend && c.Args[0].Op == OpList && len(c.Args[0].Args) == 0 {
				c = c.Args[1]
			}
			if c.Op != OpCall || !strings.HasPrefix(c.Name, "each ") || stripChange(c.Args[0]) != stripChange(it.snapshot(s, val)) {
				fail(e.pos, s, "%s returns %s", a.name, c)
			}
			continue
		}
		if c.Op != OpList || len(c.Args) != n {
			fail(e.pos, s, "%s returns %s for a name with %d values", a.name, c, n)
			continue
		}
		for i, x := range c.Args {
			x = strip(x)
			if x.Op != OpCall || x.Name != "strings.TrimSpace" {
				fail(e.pos, s, "%s: element %d is not trimmed (%s)", a.name, i, x)
				break
			}
			if strip(x.Args[0]) != elems[i] {
				fail(e.pos, s, "%s: element %d is %s, not the value at that place", a.name, i, x.Args[0])
				break
			}
		}
	}
	if exits == 0 {
		r.missing("normal end of " + a.name)
	}
	if n >= 0 || why == "" {
		if n < 0 {
			r.ok("exit", a.name+" any length")
		}
		r.absorb(it, a.name)
	}
	return why
}

// formKey is a key of a form and the entry it makes, if any.
type formKey struct{ key, sub string }

// formKeys are the ways the key of a form can relate to a name. Keys with
// something behind the bracket that closes the first part are left out: two of
// them may name one entry.
func formKeys(n string) []formKey {
	return []formKey{
		{n + "[a]", "a"}, {n + "[bc]", "bc"}, {n + "[0]", "0"}, {n + "[x.y-z]", "x.y-z"}, {n + "[é]", "é"}, {n + "[w [u]", "w [u"}, {n + "[N]", "N"},
		{n, ""}, {n + "[]", ""}, {n + "[f", ""}, {n + "[", ""}, {n + "]g[", ""}, {n + "h]", ""}, {"x" + n + "[i]", ""}, {n + "x[j]", ""},
		{"[" + n + "]", ""}, {"[l]", ""}, {n + ".m", ""}, {strings.ToUpper(n) + "[o]", ""}, {"", ""}, {"[", ""}, {"]", ""}, {"q", ""},
		{"y[" + n + "[r]]", ""}, {n + "(s)", ""}, {" " + n + "[t]", ""}, {n + " [v]", ""}, {n[:len(n)-1] + "[p]", ""}, {n + "{q}", ""}, {n + "[]a]", ""},
	}
}

// foldText computes functions of constant texts.
func foldText(it *Interp, ev *CallEv) *Expr {
	in := it.in
	if len(ev.Args) == 0 || !strings.HasPrefix(ev.Name, "strings.") {
		return nil
	}
	a, ok := ev.Args[0].constStr()
	if !ok {
		return nil
	}
	str := func(s string) *Expr { return in.constOf(constantString(s), types.Typ[types.String]) }
	switch ev.Name {
	case "strings.TrimSpace":
		return str(strings.TrimSpace(a))
	case "strings.ToLower":
		return str(strings.ToLower(a))
	case "strings.ToUpper":
		return str(strings.ToUpper(a))
	}
	if len(ev.Args) < 2 {
		return nil
	}
	if ev.Name == "strings.IndexByte" || ev.Name == "strings.LastIndexByte" || ev.Name == "strings.IndexRune" {
		c, ok := ev.Args[1].constInt()
		if !ok {
			return nil
		}
		switch ev.Name {
		case "strings.IndexByte":
			return in.intc(int64(strings.IndexByte(a, byte(c))))
		case "strings.LastIndexByte":
			return in.intc(int64(strings.LastIndexByte(a, byte(c))))
		}
		return in.intc(int64(strings.IndexRune(a, rune(c))))
	}
	b, ok := ev.Args[1].constStr()
	if !ok {
		return nil
	}
	tuple := func(x ...*Expr) *Expr {
		return in.mk(Expr{Op: OpTuple, Args: x, Typ: ev.Instr.Value().Type()})
	}
	list := func(l []string) *Expr {
		var x []*Expr
		for _, s := range l {
			x = append(x, str(s))
		}
		return in.mk(Expr{Op: OpList, Args: x, Typ: types.NewSlice(types.Typ[types.String])})
	}
	switch ev.Name {
	case "strings.Index":
		return in.intc(int64(strings.Index(a, b)))
	case "strings.LastIndex":
		return in.intc(int64(strings.LastIndex(a, b)))
	case "strings.IndexAny":
		return in.intc(int64(strings.IndexAny(a, b)))
	case "strings.Count":
		return in.intc(int64(strings.Count(a, b)))
	case "strings.HasPrefix":
		return in.boolc(strings.HasPrefix(a, b))
	case "strings.HasSuffix":
		return in.boolc(strings.HasSuffix(a, b))
	case "strings.Contains":
		return in.boolc(strings.Contains(a, b))
	case "strings.EqualFold":
		return in.boolc(strings.EqualFold(a, b))
	case "strings.TrimPrefix":
		return str(strings.TrimPrefix(a, b))
	case "strings.TrimSuffix":
		return str(strings.TrimSuffix(a, b))
	case "strings.Trim":
		return str(strings.Trim(a, b))
	case "strings.TrimLeft":
		return str(strings.TrimLeft(a, b))
	case "strings.TrimRight":
		return str(strings.TrimRight(a, b))
	case "strings.Cut":
		x, y, ok := strings.Cut(a, b)
		return tuple(str(x), str(y), in.boolc(ok))
	case "strings.CutPrefix":
		x, ok := strings.CutPrefix(a, b)
		return tuple(str(x), in.boolc(ok))
	case "strings.CutSuffix":
		x, ok := strings.CutSuffix(a, b)
		return tuple(str(x), in.boolc(ok))
	case "strings.Split":
		return list(strings.Split(a, b))
	case "strings.SplitN":
		if len(ev.Args) == 3 {
			if n, ok := ev.Args[2].constInt(); ok {
				return list(strings.SplitN(a, b, int(n)))
			}
		}
	}
	return nil
}

// c39map follows a map accessor with the keys of the form given.
func c39map(p *Program, r *Report, f, parse *ssa.Function, flag, name string, keys []formKey) {
	fn := p.fnName(f)
	it := newInterp(p)
	st := it.initial()
	args := it.Params(f)
	st.facts[it.in.eq(args[0], it.in.zero(args[0].Typ))] = false
	args[1] = it.in.constOf(constantString(name), types.Typ[types.String])
	strs := types.NewSlice(types.Typ[types.String])
	label := url.QueryEscape(name) + " with " + itoa(len(keys)) + " keys"
	if len(keys) == 1 {
		label = "name " + name + ", key " + keys[0].key
	}
	it.hooks.Opaque = func(g *ssa.Function, ev *CallEv) bool { return g == parse }
	it.hooks.Call = func(s *State, ev *CallEv) {
		if ev.Fn == parse && ev.Kind != "defer-stmt" || parsesForm(ev) {
			s.auto["parsed"] = "1"
		}
	}
	constKey := func(k string) *Expr { return it.in.constOf(constantString(k), types.Typ[types.String]) }
	it.hooks.After = func(s *State, ev *CallEv, _ *Expr) {
		if ev.Fn != parse || ev.Kind == "defer-stmt" {
			return
		}
		if form := p.formOf(it, s, args[0]); form != nil {
			it.assume(s, it.in.eq(form, it.in.zero(form.Typ)), false)
			for _, k := range keys {
				v, ok := it.lookup(s, form, constKey(k.key), strs)
				it.assume(s, ok, true)
				it.assume(s, it.in.lss(it.in.intc(0), it.in.lenOf(v)), true)
			}
		}
	}
	it.hooks.Override = func(s *State, ev *CallEv) (*Expr, bool) {
		if x := foldText(it, ev); x != nil {
			return x, true
		}
		return nil, false
	}
	it.hooks.Next = func(s *State, coll *Expr) (*Expr, *Expr) {
		if !isReqForm(coll) {
			return nil, nil
		}
		tag := "next" + itoa(coll.ID)
		i := len(s.auto[tag])
		if i >= len(keys) {
			return it.in.boolc(false), nil
		}
		s.auto[tag] += "."
		return it.in.boolc(true), constKey(keys[i].key)
	}
	want := map[string]string{}
	for _, k := range keys {
		if k.sub != "" {
			want[k.sub] = k.key
		}
	}
	n := 0
	for _, e := range it.startWith(f, st, args) {
		if e.panic {
			r.fail("key", fn, e.pos, e.st, "%s panics for %s", fn, label)
			continue
		}
		n++
		s := e.st
		r.ok("key", fn+" "+label+" "+p.pos(e.pos))
		if !it.formParsed(s, args[0], flag) {
			r.fail("key", fn, e.pos, s, "%s: the form may not have been parsed", fn)
			continue
		}
		v := stripChange(e.vals[0])
		if len(args) > 2 {
			if v == stripChange(args[2]) {
				if len(want) > 0 {
					r.fail("key", fn, e.pos, s, "%s returns the default for %s, which names an entry", fn, label)
				}
				continue
			}
			if len(want) == 0 {
				r.fail("key", fn, e.pos, s, "%s does not return the default for %s, which names no entry", fn, label)
				continue
			}
		}
		if v.isNil() && len(want) == 0 {
			continue
		}
		if v.Op != OpMake {
			r.fail("key", fn, e.pos, s, "%s returns %s instead of a new map", fn, v)
			continue
		}
		got := map[string]bool{}
		for c, x := range s.mem {
			if c.Op != OpMapCell || stripChange(c.Args[0]) != v {
				continue
			}
			k, ok := c.Args[1].constStr()
			if !ok {
				r.fail("key", fn, e.pos, s, "%s stores an entry under %s for %s", fn, c.Args[1], label)
				continue
			}
			got[k] = true
			src, ok := want[k]
			if !ok {
				r.fail("key", fn, e.pos, s, "%s stores an entry %q for %s", fn, k, label)
				continue
			}
			x = strip(x)
			if x.Op != OpCall || x.Name != "strings.TrimSpace" || !it.isFormValue(x.Args[0], constKey(src)) {
				r.fail("key", fn, e.pos, s, "%s stores %s under %q, not the trimmed first value of %q", fn, x, k, src)
			}
		}
		for k, key := range want {
			if !got[k] {
				r.fail("key", fn, e.pos, s, "%s has no entry %q for key %q of the form", fn, k, key)
			}
		}
	}
	if n == 0 {
		r.missing("normal end of " + fn + " for " + label)
	}
	r.absorb(it, fn)
}
