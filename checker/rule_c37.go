package main

import (
	"go/token"
	"go/types"
	"reflect"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C37", "Every Bind and Bind2 method of the exported binders is interpreted: what it hands to the functions that fill the object must be its own part of the request (the form and the multipart form only once parsed), under its own tag; "+
		"JSON and XML must decode the whole body. Every source type is interpreted with the very value the binder made of it. The functions that fill values are interpreted as units: they hand on the source, tag and key they were given, look keys up in that source only, "+
		"and the key is the name in the tag (the name of the field where the tag is empty, the canonical form for headers). A map target receives every key with its values or the last of them, and an object is refused as a map only where it is known to be none of the maps that can be filled; a map is filled through a pointer to it.",
		map[string]int{"binder": 13, "source": 12, "decode": 2, "set": 2, "unit": 3, "key": 3, "map": 2, "refused": 2, "pointer": 2}, c37)
}

var binderTags = map[string]string{"Form": "form", "FormPost": "form", "FormMultipart": "form", "Query": "form", "Header": "header", "Uri": "uri"}

type c37t struct {
	p    *Program
	r    *Report
	u    *bindUnits
	tag  map[*ssa.Function]int
	keys map[*ssa.Function]int
	bind map[*ssa.Function]bool // behind MapForm: the key comes from the tag in its final form
	done map[string]bool
}

func c37(p *Program, r *Report) {
	t := &c23t{p: p, u: newBindUnits(p), tag: map[*ssa.Function]int{}}
	t.tags()
	c := &c37t{p: p, r: r, u: t.u, tag: t.tag, keys: map[*ssa.Function]int{}, bind: map[*ssa.Function]bool{}, done: map[string]bool{}}
	c.findKeys()
	if f := p.fn(p.binding, "MapForm"); f != nil {
		for _, g := range p.Funcs() {
			c.bind[g] = g == f || p.fnReaches(f, map[*ssa.Function]bool{}, func(h *ssa.Function) bool { return h == g })
		}
	}
	for _, n := range []string{"JSON", "XML", "Form", "FormPost", "FormMultipart", "Query", "Header", "Uri"} {
		g, ok := p.binding.Members[n].(*ssa.Global)
		if !ok {
			r.missing("binding." + n)
			continue
		}
		any := false
		for _, m := range []string{"Bind", "Bind2"} {
			sel := p.prog.MethodSets.MethodSet(derefT(g.Type())).Lookup(p.binding.Pkg, m)
			if sel == nil {
				continue
			}
			f := p.prog.FuncValue(sel.Obj().(*types.Func))
			if f == nil || len(f.Blocks) == 0 || len(f.Params) != 3 {
				continue
			}
			any = true
			c.binder(n, f)
		}
		if !any {
			r.missing("binding." + n + ".Bind")
		}
	}
	c.units()
	c.mapTypes()
}

// mapTypes: a function that fills maps refuses only what is none of the maps
// it can fill.
func (c *c37t) mapTypes() {
	p, r := c.p, c.r
	fills := func(t types.Type) bool {
		if q, ok := t.Underlying().(*types.Pointer); ok {
			t = q.Elem()
		}
		m, ok := t.Underlying().(*types.Map)
		return ok && (isFormMap(t) || isStringT(m.Key()) && isStringT(m.Elem()))
	}
	for _, f := range p.Funcs() {
		if f.Pkg != p.binding || f.Synthetic != "" || f.Parent() != nil || !returnsError(f.Signature) {
			continue
		}
		var ts []*ssa.TypeAssert
		stores := false
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.TypeAssert:
					if x.CommaOk && fills(x.AssertedType) {
						ts = append(ts, x)
					}
				case *ssa.MapUpdate:
					stores = stores || fills(x.Map.Type())
				}
			}
		}
		if len(ts) == 0 || !stores {
			continue
		}
		it := newInterp(p)
		st := it.initial()
		name := p.fnName(f)
		for _, e := range it.normal(f, st, it.Params(f)) {
			last := e.vals[len(e.vals)-1]
			if it.truth(e.st, it.in.eq(last, it.in.zero(last.Typ))) == 1 {
				continue
			}
			for _, t := range ts {
				key := typeKey(t.AssertedType)
				r.ok("refused", name+" "+key)
				want := t.AssertedType
				if q, ok := want.Underlying().(*types.Pointer); ok {
					want = q.Elem()
				}
				none := false
				for x, v := range e.st.facts {
					switch {
					case x.Op == OpAssertOk && x.Name == key:
						none = none || !v
					case x.Op == OpAssertOk && v && x.Name != key:
						none = true
					case x.Op == OpBin && x.Name == "==" && len(x.Args) == 2:
						for i, a := range x.Args {
							k, ok := a.constInt()
							b := strip(x.Args[1-i])
							if !ok || b.Op != OpCall && b.Op != OpRes || !strings.HasSuffix(b.Name, ".Kind") {
								continue
							}
							switch reflect.Kind(k) {
							case reflect.Slice:
								none = none || v != isFormMap(want)
							case reflect.String:
								none = none || v == isFormMap(want)
							}
						}
					}
				}
				if !none {
					r.fail("refused", name+" "+key, e.pos, e.st, "%s refuses an object that may be a %s, which it can fill", name, key)
				}
			}
		}
	}
}

// findKeys finds the parameters values are looked up with.
func (c *c37t) findKeys() {
	for changed := true; changed; {
		changed = false
		for _, f := range c.p.Funcs() {
			if f.Pkg != c.p.binding {
				continue
			}
			if _, ok := c.keys[f]; ok {
				continue
			}
			if c.isTrySet(f) {
				for i, q := range f.Params {
					if i > 0 && isStringT(q.Type()) {
						c.keys[f] = i
						changed = true
					}
				}
				continue
			}
			for i, q := range f.Params {
				if !isStringT(q.Type()) {
					continue
				}
				hit := false
				for _, ref := range *q.Referrers() {
					switch x := ref.(type) {
					case *ssa.Lookup:
						hit = hit || x.Index == q && (isFormMap(x.X.Type()) || isFileMap(x.X.Type()))
					case ssa.CallInstruction:
						if g := x.Common().StaticCallee(); g != nil {
							if j, ok := c.keys[g]; ok && j < len(x.Common().Args) && x.Common().Args[j] == q {
								hit = true
							}
						}
					}
				}
				if hit {
					c.keys[f] = i
					changed = true
					break
				}
			}
		}
	}
}

// isTrySet: a method through which a source sets a value.
func (c *c37t) isTrySet(f *ssa.Function) bool {
	if f.Signature.Recv() == nil || !c.u.walk[f] {
		return false
	}
	for t := f.Signature.Recv().Type(); t != nil; t = nil {
		if c.p.setterTypes()[typeKey(t)] {
			rv := c.p.reflectType("Value")
			for i := 1; i < len(f.Params); i++ {
				if types.Identical(f.Params[i].Type(), rv) {
					return true
				}
			}
		}
	}
	return false
}

func (c *c37t) isSetterIface(t types.Type) bool {
	i, ok := t.Underlying().(*types.Interface)
	if !ok {
		return false
	}
	rv := c.p.reflectType("Value")
	for k := 0; k < i.NumMethods(); k++ {
		sig := i.Method(k).Type().(*types.Signature)
		for j := 0; j < sig.Params().Len(); j++ {
			if types.Identical(sig.Params().At(j).Type(), rv) {
				return true
			}
		}
	}
	return false
}

// plain removes conversions and interfaces.
func plain(e *Expr) *Expr {
	for e != nil {
		x := stripIface(stripChange(e))
		if x.Op == OpIface {
			x = x.Args[0]
		}
		if x == e {
			return e
		}
		e = x
	}
	return e
}

func fieldOfStruct(t types.Type, name string) types.Type {
	s, ok := derefOr(t).Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return s.Field(i).Type()
		}
	}
	return nil
}

func derefOr(t types.Type) types.Type {
	if d := derefT(t); d != nil {
		return d
	}
	return t
}

func (it *Interp) loadField(s *State, base *Expr, name string) *Expr {
	ft := fieldOfStruct(base.Typ, name)
	if ft == nil {
		return nil
	}
	return plain(it.load(s, it.fieldAddr(base, name, pointerTo(ft)), ft))
}

// c37src is what a binder may read from.
type c37src struct {
	c    *c37t
	it   *Interp
	name string
	req  *Expr
	seen map[*Expr]bool // the source as it was at some point
}

// form and file say whether e is the part of the request the binder reads.
func (x *c37src) form(s *State, e *Expr) bool {
	e = plain(e)
	switch x.name {
	case "Uri":
		return e == plain(x.req)
	case "Form", "FormPost":
		return e == x.it.loadField(s, x.req, "Form")
	case "Header":
		return e == x.it.loadField(s, x.req, "Header")
	case "FormMultipart":
		mf := x.it.loadField(s, x.req, "MultipartForm")
		return mf != nil && (e == x.it.loadField(s, mf, "Value") || partOf(e, mf, "Value"))
	case "Query":
		u := x.it.loadField(s, x.req, "URL")
		if e.Op == OpExtract && e.Args[0] != nil {
			return false
		}
		return (e.Op == OpCall || e.Op == OpRes) && e.Name == "(*net/url.URL).Query" && len(e.Args) > 0 && plain(e.Args[0]) == u
	}
	return false
}

func (x *c37src) file(s *State, e *Expr) bool {
	e = plain(e)
	if x.name != "FormMultipart" {
		return e.isNil()
	}
	mf := x.it.loadField(s, x.req, "MultipartForm")
	return mf != nil && (e == x.it.loadField(s, mf, "File") || partOf(e, mf, "File"))
}

// partOf: e is the field of what base points to, whatever the pointer is called.
func partOf(e, base *Expr, name string) bool {
	return e.Op == OpInit && e.Args[0].Op == OpFieldAddr && e.Args[0].Name == name && plain(e.Args[0].Args[0]) == base
}

// parsed: the source is there.
func (x *c37src) parsed(s *State) bool {
	f := ""
	switch x.name {
	case "Form", "FormPost":
		f = "Form"
	case "FormMultipart":
		f = "MultipartForm"
	default:
		return true
	}
	if x.it.nilness(s, x.it.loadField(s, x.req, f)) == -1 {
		return true
	}
	for _, e := range s.lists["parse:"+f] {
		if x.it.nilness(s, e) == 1 {
			return true
		}
	}
	return false
}

func (c *c37t) binder(name string, f *ssa.Function) {
	p, r := c.p, c.r
	key := name + " " + p.fnName(f)
	fn := p.fnName(f)
	it := newInterp(p)
	s0 := it.initial()
	args := it.Params(f)
	x := &c37src{c: c, it: it, name: name, req: args[1]}
	obj := args[2]
	if name != "Uri" {
		s0.facts[it.in.eq(x.req, it.in.zero(x.req.Typ))] = false
	}
	r.ok("binder", key)
	it.hooks.Opaque = func(g *ssa.Function, ev *CallEv) bool {
		return g.Name() == "ValidateStruct" || c.u.walk[g] || c.u.leaf[g]
	}
	body := name == "JSON" || name == "XML"
	type nested struct {
		s   *State
		src *Expr
		fr  string
	}
	var todo []nested
	it.hooks.After = func(s *State, ev *CallEv, v *Expr) {
		if ev.Instr == nil || ev.Kind == "defer-stmt" {
			return
		}
		if ev.Name == "(*net/http.Request).ParseForm" || ev.Name == "(*net/http.Request).ParseMultipartForm" {
			if len(ev.Args) > 0 && ev.Args[0] == x.req {
				s.push("parse:Form", v)
				if strings.HasSuffix(ev.Name, "MultipartForm") {
					s.push("parse:MultipartForm", v)
				}
			}
		}
	}
	maps := func(s *State, what string, ev *CallEv, a *Expr, t types.Type) {
		switch {
		case isFormMap(t):
			r.ok("source", key+p.pos(ev.Pos))
			if !x.form(s, a) {
				r.fail("source", key, ev.Pos, s, "%s hands %s to %s instead of its own part of the request", fn, a, what)
			} else if !x.parsed(s) {
				r.fail("parsed", key, ev.Pos, s, "%s reads a form that may not have been parsed", fn)
			}
		case isFileMap(t):
			if !x.file(s, a) {
				r.fail("source", key, ev.Pos, s, "%s hands the files %s to %s", fn, a, what)
			}
		}
	}
	past := token.NoPos
	var pastS *State
	it.hooks.Call = func(s *State, ev *CallEv) {
		if ev.Instr == nil || ev.Kind == "defer-stmt" || ev.Fr == nil {
			return
		}
		if body {
			c.decode(it, s, ev, name, key, fn, x.req, obj)
			return
		}
		if ev.Fn == nil || !c.u.walk[ev.Fn] {
			return
		}
		if !notMap(s) {
			past, pastS = ev.Pos, s.clone()
		}
		for i, q := range ev.Fn.Params {
			if i >= len(ev.Args) {
				break
			}
			a := it.snapshot(s, ev.Args[i])
			switch t := q.Type(); {
			case isMapT(t):
				maps(s, p.fnName(ev.Fn), ev, plain(a), t)
			case c.isSetterIface(t) || i == 0 && c.isTrySet(ev.Fn):
				v := plain(a)
				r.ok("source", key+p.pos(ev.Pos))
				if types.IsInterface(v.Typ) {
					r.fail("source", key, ev.Pos, s, "%s hands a source of unknown type to %s", fn, p.fnName(ev.Fn))
					continue
				}
				if !x.parsed(s) {
					r.fail("parsed", key, ev.Pos, s, "%s reads a form that may not have been parsed", fn)
				}
				todo = append(todo, nested{s.clone(), stripIface(a), p.fnName(ev.Fn)})
			}
			if j, ok := c.tag[ev.Fn]; ok && j == i {
				if v, ok := a.constStr(); !ok || v != binderTags[name] {
					r.fail("tag", key, ev.Pos, s, "%s fills the object under the tag %s, its own is %q", fn, a, binderTags[name])
				}
			}
		}
	}
	updated, pointed := token.NoPos, false
	c.mapTarget(it, key, fn, obj, x)
	update := it.hooks.MapUpdate
	it.hooks.MapUpdate = func(s *State, fr *Frame, m, k, v *Expr, instr ssa.Instruction) {
		update(s, fr, m, k, v, instr)
		if isStringT(m.Typ.Underlying().(*types.Map).Key()) && it.in.contains(m, obj) {
			updated = instr.Pos()
			pointed = pointed || throughPointer(s, obj)
		}
	}
	it.startWith(f, s0, args)
	if updated != token.NoPos {
		if r.ok("pointer", key); !pointed {
			r.fail("pointer", key, updated, s0, "%s fills no map it is given a pointer to", fn)
		} else if past != token.NoPos {
			r.fail("pointer", key, past, pastS, "%s goes on as with a struct although the object may be a pointer to a map", fn)
		}
	}
	it.hooks = Hooks{Opaque: it.hooks.Opaque}
	for _, n := range todo {
		c.set(it, n.s, n.src, x, key, fn)
	}
	r.absorb(it, fn)
}

// decode checks what fills the object of a JSON or XML binder.
func (c *c37t) decode(it *Interp, s *State, ev *CallEv, name, key, fn string, req, obj *Expr) {
	fills := -1
	for i, a := range ev.Args {
		if plain(a) == plain(obj) && ev.Method != "ValidateStruct" && !strings.HasSuffix(ev.Name, ".ValidateStruct") {
			fills = i
		}
	}
	if fills < 0 || ev.Fn != nil && ev.Fn.Blocks != nil && !ev.Cut && c.p.inModule(ev.Fn) || pure(it, s, ev) || strings.HasPrefix(ev.Name, "reflect.") {
		return
	}
	c.r.ok("decode", key+c.p.pos(ev.Pos))
	body := it.loadField(s, req, "Body")
	kind := strings.ToLower(name)
	nm := ev.Name + "." + ev.Method
	if len(ev.Args) > 0 && ev.Args[0].Typ != nil {
		nm += " " + ev.Args[0].Typ.String()
	}
	if !strings.Contains(strings.ToLower(nm), kind) {
		c.r.fail("decode", key, ev.Pos, s, "%s fills the object with %s", fn, nm)
		return
	}
	whole := false
	for i, a := range ev.Args {
		if i == fills {
			continue
		}
		whole = whole || c.wholeBody(it, s, a, body, 0)
	}
	if !whole {
		c.r.fail("decode", key, ev.Pos, s, "%s decodes something other than the whole request body", fn)
	}
}

// wholeBody: e is the body or something that reads all of it.
func (c *c37t) wholeBody(it *Interp, s *State, e, body *Expr, depth int) bool {
	e = plain(e)
	if e == nil || depth > 6 {
		return false
	}
	if e == body {
		return true
	}
	switch e.Op {
	case OpExtract:
		return c.wholeBody(it, s, e.Args[0], body, depth+1)
	case OpRes, OpCall:
		n := e.Name
		switch {
		case n == "io.ReadAll", n == "io/ioutil.ReadAll", n == "bufio.NewReader", n == "bufio.NewReaderSize", n == "io.TeeReader", n == "io.NopCloser", n == "io/ioutil.NopCloser",
			n == "bytes.NewReader", n == "bytes.NewBuffer", strings.HasSuffix(n, ".NewDecoder"), n == "NewDecoder":
			for _, a := range e.Args {
				if c.wholeBody(it, s, a, body, depth+1) {
					return true
				}
			}
		}
	}
	return false
}

// set interprets the method a source sets values with, on that very source.
func (c *c37t) set(it *Interp, s *State, src *Expr, x *c37src, key, fn string) {
	p, r := c.p, c.r
	v := src
	if v.Op == OpIface {
		v = v.Args[0]
	}
	var f *ssa.Function
	ms := p.prog.MethodSets.MethodSet(v.Typ)
	for i := 0; i < ms.Len(); i++ {
		if g := p.prog.FuncValue(ms.At(i).Obj().(*types.Func)); g != nil && c.isTrySet(g) && g.Name() == "TrySet" || g != nil && c.isTrySet(g) && f == nil {
			f = g
		}
	}
	if f == nil {
		r.fail("set", key, 0, s, "%s: how %s sets values is not known", fn, src)
		return
	}
	name := p.fnName(f)
	k := key + " " + name
	r.ok("set", k)
	args := it.Params(f)
	if types.Identical(f.Params[0].Type(), v.Typ) {
		args[0] = v
	} else {
		args[0] = it.load(s, v, f.Params[0].Type())
	}
	keyP := args[c.keys[f]]
	isKey := func(a *Expr) bool {
		a = plain(a)
		if x.name != "Header" {
			return a == keyP
		}
		return isCanonical(a) && plain(a.Args[0]) == keyP
	}
	fileKey := map[*Expr]bool{}
	look := func(s *State, e *Expr, pos *CallEv) {
		it.in.walk(e, func(y *Expr) bool {
			if y.Op != OpLookup && y.Op != OpLookupOk {
				return true
			}
			m := y.Args[0]
			switch {
			case isFormMap(m.Typ):
				if !x.form(s, m) || !isKey(y.Args[1]) {
					r.fail("set", k, pos.Pos, s, "%s sets a value from %s", name, y)
				}
			case isFileMap(m.Typ):
				if !x.file(s, m) || !isKey(y.Args[1]) {
					r.fail("set", k, pos.Pos, s, "%s sets a value from the files %s", name, y)
				} else if y.Op == OpLookup {
					fileKey[y] = true
				}
			}
			return true
		})
	}
	it.hooks.Opaque = func(g *ssa.Function, ev *CallEv) bool { return c.u.walk[g] || c.u.leaf[g] }
	it.hooks.Call = func(s *State, ev *CallEv) {
		if ev.Instr == nil || ev.Kind == "defer-stmt" || ev.Fr == nil {
			return
		}
		if isSetter(ev.Name) {
			for _, a := range ev.Args {
				look(s, it.snapshot(s, a), ev)
			}
			s.auto["fill"] = "1"
			return
		}
		if ev.Fn == nil || !c.u.walk[ev.Fn] {
			return
		}
		for i, q := range ev.Fn.Params {
			a := it.snapshot(s, ev.Args[i])
			switch {
			case isFormMap(q.Type()):
				s.auto["fill"] = "1"
				if !x.form(s, a) {
					r.fail("set", k, ev.Pos, s, "%s reads %s instead of its own part of the request", name, a)
				}
			case isFileMap(q.Type()):
				if !x.file(s, a) {
					r.fail("set", k, ev.Pos, s, "%s reads the files %s", name, a)
				}
			case isMapT(q.Type()):
			default:
				look(s, a, ev)
			}
			if j, ok := c.keys[ev.Fn]; ok && j == i && !isKey(a) {
				r.fail("set", k, ev.Pos, s, "%s looks up %s instead of the name it is given", name, a)
			}
		}
	}
	st := s.clone()
	st.auto["fill"] = ""
	for _, e := range it.startWith(f, st, args) {
		if e.panic || e.st.auto["fill"] != "" {
			continue
		}
		// without having set anything: there are files, or no value of the name
		why := false
		for f, v := range e.st.facts {
			why = why || f.Op == OpLookupOk && !v && isKey(f.Args[1])
		}
		for l := range fileKey {
			why = why || it.truth(e.st, it.in.lss(it.in.lenOf(l), it.in.intc(1))) == -1
		}
		if x.name == "FormMultipart" {
			mf := it.loadField(e.st, x.req, "MultipartForm")
			for _, y := range it.in.byID {
				if y.Op == OpLookup && isFileMap(y.Args[0].Typ) && mf != nil && x.file(e.st, y.Args[0]) && isKey(y.Args[1]) {
					why = why || it.truth(e.st, it.in.lss(it.in.lenOf(y), it.in.intc(1))) == -1
				}
			}
		}
		if !why {
			r.fail("set", k, e.pos, e.st, "%s does not look at the values of the name it is given", name)
		}
	}
	it.hooks.Call = nil
}

func isCanonical(a *Expr) bool {
	return a.Op == OpCall && (a.Name == "net/textproto.CanonicalMIMEHeaderKey" || a.Name == "net/http.CanonicalHeaderKey")
}

// notMap: the object is known to be no pointer to a map with texts for keys.
func notMap(s *State) bool {
	for f, v := range s.facts {
		if f.Op == OpAssertOk && !v {
			if q, ok := f.Typ.Underlying().(*types.Pointer); ok && isMapT(q.Elem()) {
				return true
			}
		}
		if f.Op != OpBin || f.Name != "==" || len(f.Args) != 2 {
			continue
		}
		for i, a := range f.Args {
			k, ok := a.constInt()
			b := strip(f.Args[1-i])
			if !ok || b.Op != OpCall && b.Op != OpRes || !strings.HasSuffix(b.Name, ".Kind") {
				continue
			}
			elem, key := false, false
			for x := strip(b.Args[0]); x != nil && (x.Op == OpCall || x.Op == OpRes) && len(x.Args) > 0; x = strip(x.Args[0]) {
				elem = elem || strings.HasSuffix(x.Name, ".Elem") || x.Name == "reflect.Indirect"
				key = key || strings.HasSuffix(x.Name, ".Key")
			}
			switch {
			case key:
				if k == int64(reflect.String) && !v {
					return true
				}
			case k == int64(reflect.Ptr) && !elem && !v:
				return true
			case k == int64(reflect.Map) && elem && !v:
				return true
			case k != int64(reflect.Map) && elem && v:
				return true
			}
		}
	}
	return false
}

// throughPointer: what obj points to is known to be a map here.
func throughPointer(s *State, obj *Expr) bool {
	for f, v := range s.facts {
		if !v {
			continue
		}
		if f.Op == OpAssertOk && f.Args[0] == obj {
			if q, ok := f.Typ.Underlying().(*types.Pointer); ok && isMapT(q.Elem()) {
				return true
			}
		}
		if f.Op != OpBin || f.Name != "==" || len(f.Args) != 2 {
			continue
		}
		for i, a := range f.Args {
			k, ok := a.constInt()
			b := strip(f.Args[1-i])
			if !ok || k != int64(reflect.Map) || b.Op != OpCall && b.Op != OpRes || !strings.HasSuffix(b.Name, ".Kind") {
				continue
			}
			for x := strip(b.Args[0]); x != nil && (x.Op == OpCall || x.Op == OpRes) && len(x.Args) > 0; x = strip(x.Args[0]) {
				if strings.HasSuffix(x.Name, ".Elem") || x.Name == "reflect.Indirect" {
					return true
				}
			}
		}
	}
	return false
}

// mapTarget follows a copy of the source into a map.
func (c *c37t) mapTarget(it *Interp, key, fn string, obj *Expr, x *c37src) {
	r := c.r
	it.hooks.MapUpdate = func(s *State, fr *Frame, m, k, v *Expr, instr ssa.Instruction) {
		if !isStringT(m.Typ.Underlying().(*types.Map).Key()) || !it.in.contains(m, obj) {
			return
		}
		r.ok("map", key+c.p.pos(instr.Pos()))
		if k.Op != OpRes || k.Name != "next.k" {
			r.fail("map", key, instr.Pos(), s, "%s stores the key %s into the map", fn, k)
			return
		}
		var src *Expr
		for _, a := range append([]*Expr{k.Args[0]}, it.in.alternatives(k.Args[0])...) {
			if a.Op == OpRes && a.Name == "range" {
				src = a.Args[0]
			}
		}
		if src == nil || !x.form(s, src) {
			r.fail("map", key, instr.Pos(), s, "%s copies %s instead of its own part of the request", fn, src)
			return
		}
		if !x.parsed(s) {
			r.fail("parsed", key, instr.Pos(), s, "%s reads a form that may not have been parsed", fn)
		}
		is := func(e *Expr) bool {
			e = plain(e)
			return e.Op == OpLookup && plain(e.Args[0]) == plain(src) && e.Args[1] == k
		}
		good := is(v)
		if l, i := element(v); !good && l != nil && is(l) {
			d, ok := it.exact(s, it.in.addc(it.in.lenOf(plain(l)), -1), i)
			good = ok && d == 0
		}
		if !good {
			r.fail("map", key, instr.Pos(), s, "%s stores %s under the key, neither its values nor the last of them", fn, v)
		}
		s.auto["copied"] = "1"
	}
	it.hooks.Arrive = func(s *State, fr *Frame, blk *ssa.BasicBlock, back bool) {
		nx := rangeNext(blk)
		if nx == nil || !isFormMap(nx.Iter.(*ssa.Range).X.Type()) {
			return
		}
		if back && s.auto["copied"] == "" {
			// nothing to copy: the key has no value
			t, ok := s.env[envKey{fr.id, nx}]
			none := false
			if ok && t.Op == OpTuple && len(t.Args) == 3 {
				none = it.truth(s, it.in.lss(it.in.lenOf(plain(t.Args[2])), it.in.intc(1))) == 1
			}
			if !none {
				r.fail("map", key, nx.Pos(), s, "%s may leave a key of the source out of the map", fn)
			}
		}
		s.auto["copied"] = ""
	}
}

func rangeNext(b *ssa.BasicBlock) *ssa.Next {
	for _, in := range b.Instrs {
		if n, ok := in.(*ssa.Next); ok && !n.IsString {
			if _, ok := n.Iter.(*ssa.Range); ok {
				return n
			}
		}
	}
	return nil
}

// units checks what the functions that fill values hand on.
func (c *c37t) units() {
	p, r := c.p, c.r
	consts := []string{"form", "header", "uri"}
	for _, tag := range consts {
		tag := tag
		c.u.run(r, func(it *Interp, f *ssa.Function, s *State, args []*Expr) {
			if !c.u.walk[f] || c.isTrySet(f) {
				return
			}
			name := p.fnName(f)
			r.ok("unit", name)
			var tagP, keyP *Expr
			if i, ok := c.tag[f]; ok {
				if c.bind[f] {
					args[i] = it.in.constOf(constantString(tag), typString)
				}
				tagP = args[i]
			}
			if i, ok := c.keys[f]; ok {
				keyP = args[i]
			}
			own := func(t types.Type) (out []*Expr) {
				for i, q := range f.Params {
					if types.Identical(q.Type(), t) || isFormMap(t) && isFormMap(q.Type()) || isFileMap(t) && isFileMap(q.Type()) {
						out = append(out, args[i])
					}
				}
				return
			}
			isOwn := func(a *Expr, t types.Type) bool {
				for _, o := range own(t) {
					if plain(a) == plain(o) {
						return true
					}
				}
				return false
			}
			var sub *Expr
			fld := p.reflectType("StructField")
			for i, q := range f.Params {
				if types.Identical(q.Type(), fld) {
					sub = args[i]
				}
			}
			isKey := func(s *State, a *Expr) bool {
				if keyP != nil {
					return a == keyP
				}
				return c.name(it, s, a, sub, tagP, tag, c.bind[f])
			}
			it.hooks.Assume = func(s *State, e *Expr, val bool) bool {
				c.noted(it, s, e, val, sub, tagP)
				return true
			}
			look := func(s *State, e *Expr, ev *CallEv) {
				it.in.walk(e, func(y *Expr) bool {
					if y.Op != OpLookup && y.Op != OpLookupOk || !isFormMap(y.Args[0].Typ) && !isFileMap(y.Args[0].Typ) {
						return true
					}
					r.ok("key", name+p.pos(ev.Pos))
					if !isOwn(y.Args[0], y.Args[0].Typ) {
						r.fail("source", name, ev.Pos, s, "%s looks a name up in %s, not in the source it is given", name, y.Args[0])
					}
					if !isKey(s, y.Args[1]) {
						r.fail("key", name, ev.Pos, s, "%s looks up %s, which is not the name the %q tag gives", name, y.Args[1], tag)
					}
					return true
				})
			}
			it.hooks.Call = func(s *State, ev *CallEv) {
				if ev.Instr == nil || ev.Kind == "defer-stmt" || ev.Fr == nil {
					return
				}
				step := ev.Fn != nil && c.u.walk[ev.Fn] || ev.Invoke && len(ev.Args) > 0 && c.isSetterIface(ev.Args[0].Typ)
				if isSetter(ev.Name) || ev.Fn != nil && c.u.leaf[ev.Fn] && c.u.step(ev.Fr.fn, ev.Fn) {
					for _, a := range ev.Args {
						look(s, it.snapshot(s, a), ev)
					}
					for _, y := range sortedExprSet(s.facts) {
						if y.Op == OpLookupOk && s.facts[y] {
							look(s, y, ev)
						}
					}
					return
				}
				if !step {
					return
				}
				r.ok("hand", name+p.pos(ev.Pos))
				for i := range ev.Args {
					a := it.snapshot(s, ev.Args[i])
					var t types.Type
					if ev.Fn != nil {
						t = ev.Fn.Params[i].Type()
					} else {
						t = ev.Args[i].Typ
					}
					if (isFormMap(t) || isFileMap(t) || c.isSetterIface(t)) && !isOwn(a, t) {
						r.fail("source", name, ev.Pos, s, "%s hands on %s instead of the source it was given", name, a)
					}
					if ev.Fn != nil {
						if j, ok := c.tag[ev.Fn]; ok && j == i && a != tagP {
							r.fail("tag", name, ev.Pos, s, "%s hands on the tag %s instead of the one it was given", name, a)
						}
						if j, ok := c.keys[ev.Fn]; ok && j == i && !isKey(s, a) {
							r.fail("key", name, ev.Pos, s, "%s hands on the name %s, which is not the one the tag gives", name, a)
						}
					} else if isStringT(t) {
						r.ok("key", name+p.pos(ev.Pos))
						if !isKey(s, a) {
							r.fail("key", name, ev.Pos, s, "%s hands on the name %s, which is not the one the tag gives", name, a)
						}
					}
				}
			}
		}, nil)
	}
}

var typString = types.Typ[types.String]

// noted keeps what is known of the name in the tag.
func (c *c37t) noted(it *Interp, s *State, e *Expr, val bool, sub, tagP *Expr) {
	if sub == nil || tagP == nil {
		return
	}
	u := &c23unit{c24unit: &c24unit{it: it}, c: &c23t{p: c.p}, sub: sub, tag: tagP}
	for _, v := range []bool{true, false} {
		if x := emptyFact(e, v); x != nil && c.base(u, s, x) {
			if v == val {
				s.auto["tag"] = "empty"
			} else if s.auto["tag"] == "" {
				s.auto["tag"] = "named"
			}
		}
	}
	if e.Op == OpBin && (e.Name == "==" || e.Name == "<") {
		// the comma is the first byte
		for _, y := range it.in.byID {
			t := u.tagOf(s, y, nil)
			if t == nil || !isIndexOf(e.Args[0], t) && !(len(e.Args) > 1 && isIndexOf(e.Args[1], t)) {
				continue
			}
			for _, z := range it.in.byID {
				if z.Op == OpCall && isIndexOf(z, t) {
					n := s.clone()
					if !it.assume(n, e, val) {
						continue
					}
					zero := it.truth(n, it.in.eq(z, it.in.intc(0)))
					if zero == 1 {
						s.auto["tag"] = "empty"
					} else if zero == -1 && s.auto["tag"] == "" && it.truth(n, it.in.lss(z, it.in.intc(0))) == -1 {
						s.auto["tag"] = "named"
					}
				}
			}
		}
	}
	if e.Op == OpBin && e.Name == "==" && val {
		for i, a := range e.Args {
			if v, ok := a.constStr(); ok && v == "-" && c.base(u, s, e.Args[1-i]) {
				s.auto["tag"] = "dash"
			}
		}
	}
}

// base: x is the name in the tag as it stands.
func (c *c37t) base(u *c23unit, s *State, x *Expr) bool {
	for _, y := range u.it.in.byID {
		if t := u.tagOf(s, y, nil); t != nil && (x == t || u.headOf(x, t)) {
			return true
		}
	}
	return false
}

// name: a is the name of field sub for the tag.
func (c *c37t) name(it *Interp, s *State, a, sub, tagP *Expr, tag string, final bool) bool {
	if sub == nil || tagP == nil {
		return false
	}
	x := a
	canon := isCanonical(a)
	if canon {
		x = plain(a.Args[0])
	}
	u := &c23unit{c24unit: &c24unit{it: it}, c: &c23t{p: c.p}, sub: sub, tag: tagP}
	base := c.base(u, s, x)
	if base && s.auto["tag"] == "empty" && !final {
		base = false
	}
	if !base && !final && u.isField(x, "Name", sub) && s.auto["tag"] == "empty" {
		base = true
	}
	if !base {
		if v, ok := x.constStr(); ok && (v == "-" || v == "") {
			return true // C23: such a field is not filled
		}
		alts := it.in.alternatives(x)
		ok := x.Op == OpSym && len(alts) > 0
		for _, y := range alts {
			ok = ok && c.name(it, s, y, sub, tagP, tag, final)
		}
		return ok
	}
	if s.auto["tag"] == "dash" {
		return true
	}
	if final {
		return canon == (tag == "header")
	}
	return !canon
}

func sortedExprSet(m map[*Expr]bool) []*Expr {
	var out []*Expr
	for e := range m {
		out = append(out, e)
	}
	for i := 1; i < len(out); i++ {
		for j := i; j > 0 && out[j].ID < out[j-1].ID; j-- {
			out[j], out[j-1] = out[j-1], out[j]
		}
	}
	return out
}
