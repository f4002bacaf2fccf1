package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() {
	extraConfigs["C27"] = []Config{cfg386}
	register("C27", "Every typed accessor of route parameters, query/form values (with and without default) and cookies is interpreted with symbolic sources. On every path its result must be the result of the strconv conversion of its own result type "+
		"(kind, base 10, a bit size equal to the result's width on the platform analysed) applied to the value stored under exactly the given name in exactly its own source; a default may be converted only where the name is known absent, and error forms must return that conversion's error.",
		map[string]int{"accessor": 30, "exit": 40}, c27)
}

// convSpec says which conversion of strconv yields t: kind and bit size.
func convSpec(t types.Type, sizes types.Sizes) (kind string, bits int64) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return "", 0
	}
	bits = sizes.Sizeof(t) * 8
	switch {
	case b.Kind() == types.Bool:
		return "bool", 0
	case b.Info()&types.IsUnsigned != 0:
		return "uint", bits
	case b.Info()&types.IsInteger != 0:
		return "int", bits
	case b.Info()&types.IsFloat != 0:
		return "float", bits
	case b.Info()&types.IsString != 0:
		return "string", 0
	}
	return "", 0
}

// strconvOf recognises the conversion a value comes from.
func strconvOf(e *Expr, sizes types.Sizes) (kind string, bits int64, raw, call *Expr) {
	if e == nil || e.Op != OpExtract && e.Op != OpCall {
		return
	}
	call = e
	if e.Op == OpExtract {
		if e.Tag == 0 && false {
			return
		}
		call = e.Args[0]
	}
	if call.Op != OpCall || len(call.Args) == 0 {
		return "", 0, nil, nil
	}
	word := sizes.Sizeof(types.Typ[types.Int]) * 8
	sz := func(i int) int64 {
		n, ok := call.Args[i].constInt()
		if !ok {
			return -1
		}
		if n == 0 {
			return word
		}
		return n
	}
	base10 := func() bool {
		n, ok := call.Args[1].constInt()
		return ok && n == 10
	}
	switch call.Name {
	case "strconv.ParseBool":
		return "bool", 0, call.Args[0], call
	case "strconv.Atoi":
		return "int", word, call.Args[0], call
	case "strconv.ParseInt":
		if base10() {
			return "int", sz(2), call.Args[0], call
		}
	case "strconv.ParseUint":
		if base10() {
			return "uint", sz(2), call.Args[0], call
		}
	case "strconv.ParseFloat":
		if n, ok := call.Args[1].constInt(); ok {
			return "float", n, call.Args[0], call
		}
		return "float", -1, call.Args[0], call
	}
	return "", 0, nil, nil
}

func (p *Program) sizes() types.Sizes {
	for _, pk := range p.pkgs {
		if pk.TypesSizes != nil {
			return pk.TypesSizes
		}
	}
	return types.SizesFor("gc", "amd64")
}

// formSource recognises the parsed form of the request.
func isReqForm(e *Expr) bool {
	e = stripChange(e)
	return mentionsReqField(e, "Form")
}

// formPresence decides whether name is present in the parsed form.
func (it *Interp) formPresence(s *State, name *Expr) int {
	res := 0
	for _, x := range it.in.byID {
		switch {
		case x.Op == OpLookup && x.Args[1] == name && isReqForm(x.Args[0]):
			switch it.truth(s, it.in.lss(it.in.lenOf(x), it.in.intc(1))) {
			case 1:
				return -1
			case -1:
				res = 1
			}
		case x.Op == OpLookupOk && x.Args[1] == name && isReqForm(x.Args[0]):
			if t := it.truth(s, x); t != 0 {
				return t
			}
		case x.Op == OpCall && x.Name == "(net/url.Values).Has" && x.Args[1] == name && isReqForm(x.Args[0]):
			if t := it.truth(s, x); t != 0 {
				return t
			}
		case x.Op == OpInit && isReqForm(x):
			if it.nilness(s, x) == 1 {
				return -1
			}
		}
	}
	return res
}

// formValue recognises the first value of name in the parsed form.
func (it *Interp) isFormValue(e, name *Expr) bool {
	e = strip(e)
	if e.Op == OpCall && e.Name == "(net/url.Values).Get" && isReqForm(e.Args[0]) && e.Args[1] == name {
		return true
	}
	if l, ok := elem0(e); ok && l.Op == OpLookup && isReqForm(l.Args[0]) && l.Args[1] == name {
		return true
	}
	return false
}

func c27(p *Program, r *Report) {
	par := p.named(p.water, "Params")
	parse := p.method(p.water, "Context", "ParseFormOrMultipartForm")
	if par == nil || parse == nil {
		r.missing("type Params and method ParseFormOrMultipartForm")
		return
	}
	flag := p.parsedFlag(parse)
	sizes := p.sizes()
	kinds := []string{"Bool", "Int", "Int64", "Uint", "Uint64", "Float64"}
	for _, fam := range []struct{ src, prefix string }{{"param", ""}, {"param", "Must"}, {"query", "Query"}, {"default", "DefaultQuery"}, {"cookie", "Cookie"}} {
		for _, k := range kinds {
			recv := "Context"
			if fam.src == "param" {
				recv = "Params"
			}
			f := p.method(p.water, recv, fam.prefix+k)
			if f == nil {
				r.missing(recv + "." + fam.prefix + k)
				continue
			}
			r.ok("accessor", p.fnName(f))
			c27one(p, r, f, parse, flag, fam.src, sizes)
		}
	}
}

// parsedFlag finds the boolean context field that records that the form was
// parsed: the one the parsing method tests or sets.
func (p *Program) parsedFlag(parse *ssa.Function) string {
	seen := map[*ssa.Function]bool{}
	work := []*ssa.Function{parse}
	for len(work) > 0 {
		g := work[0]
		work = work[1:]
		if seen[g] || g.Pkg != p.water {
			continue
		}
		seen[g] = true
		fs := p.fieldsLoaded(g, p.role.ctx)
		for _, f := range sortedKeys(fs) {
			if b, ok := fs[f].Underlying().(*types.Basic); ok && b.Info()&types.IsBoolean != 0 && f != p.role.written {
				return f
			}
		}
		for _, b := range g.Blocks {
			for _, i := range b.Instrs {
				if c, ok := i.(ssa.CallInstruction); ok {
					if h := c.Common().StaticCallee(); h != nil {
						work = append(work, h)
					}
				}
			}
		}
	}
	return ""
}

// parsesForm: the call parses the form of a request.
func parsesForm(ev *CallEv) bool {
	return ev.Kind != "defer-stmt" && (ev.Name == "(*net/http.Request).ParseForm" || ev.Name == "(*net/http.Request).ParseMultipartForm")
}

func c27one(p *Program, r *Report, f, parse *ssa.Function, flag, src string, sizes types.Sizes) {
	name := p.fnName(f)
	it := newInterp(p)
	st := it.initial()
	args := it.Params(f)
	st.facts[it.in.eq(args[0], it.in.zero(args[0].Typ))] = false
	it.hooks.Opaque = func(g *ssa.Function, ev *CallEv) bool { return g == parse }
	it.hooks.Call = func(s *State, ev *CallEv) {
		if ev.Fn == parse && ev.Kind != "defer-stmt" || parsesForm(ev) {
			s.auto["parsed"] = "1"
		}
	}
	key := args[1]
	rt := f.Signature.Results()
	want, wbits := convSpec(rt.At(0).Type(), sizes)
	fail := func(pos token.Pos, s *State, format string, a ...any) { r.fail("accessor", name, pos, s, format, a...) }
	parsed := func(s *State) bool {
		if s.auto["parsed"] != "" {
			return true
		}
		return flag != "" && it.truth(s, it.load(s, it.fieldAddr(args[0], flag, pointerTo(types.Typ[types.Bool])), types.Typ[types.Bool])) == 1
	}
	cookie := func(s *State, raw *Expr) string {
		x := strip(raw)
		var ck *Expr
		for _, y := range it.in.byID {
			if y.Op == OpCall && y.Name == "(*net/http.Request).Cookie" && it.isCtxRequest(y.Args[0], args[0]) && y.Args[1] == key {
				ck = y
			}
		}
		if ck == nil {
			return "the cookie of that name is not read"
		}
		err := it.extract(ck, 1, types.Universe.Lookup("error").Type())
		if c, ok := x.constStr(); ok && c == "" {
			if it.nilness(s, err) != -1 {
				return "an empty value is used although the cookie may exist"
			}
			return ""
		}
		if x.Op == OpInit && x.Args[0].Op == OpFieldAddr && x.Args[0].Name == "Value" {
			if b := strip(x.Args[0].Args[0]); b.Op == OpExtract && b.Args[0] == ck {
				return ""
			}
		}
		return "it does not convert the value of the cookie of that name"
	}
	// source explains why raw is not the named value ("" if it is)
	source := func(s *State, raw *Expr) string {
		switch src {
		case "ctxparam":
			x := stripChange(raw)
			if x.Op == OpLookup && x.Args[1] == key {
				if m := stripChange(x.Args[0]); m.Op == OpInit && m.Args[0].Op == OpFieldAddr && m.Args[0].Name == "Params" && m.Args[0].Args[0] == args[0] {
					return ""
				}
			}
			return "it is not the parameter of that name"
		case "escaped":
			x := strip(raw)
			if x.Op == OpCall && (x.Name == "html/template.HTMLEscapeString" || x.Name == "html.EscapeString") {
				return cookie(s, x.Args[0])
			}
			if c, ok := x.constStr(); ok && c == "" {
				return cookie(s, x)
			}
			return "the value is not escaped"
		case "param":
			x := stripChange(raw)
			if x.Op == OpLookup && x.Name == "" && stripChange(x.Args[0]) == stripChange(args[0]) && x.Args[1] == key {
				return ""
			}
			return "it does not convert the parameter of that name"
		case "query", "default":
			if !parsed(s) {
				return "the form may not have been parsed"
			}
			if src == "default" && raw == args[2] {
				if it.formPresence(s, key) != -1 {
					return "the default is used although the name may be present"
				}
				return ""
			}
			x := strip(raw)
			if c, ok := x.constStr(); ok && c == "" && src == "query" {
				if it.formPresence(s, key) != -1 {
					return "an empty value is used although the name may be present"
				}
				return ""
			}
			if x.Op == OpCall && x.Name == "strings.TrimSpace" {
				x = x.Args[0]
			} else {
				return "the value is not trimmed"
			}
			if !it.isFormValue(x, key) {
				return "it does not convert the form value of that name"
			}
			if src == "default" && it.formPresence(s, key) != 1 {
				return "the default is not used although the name may be absent"
			}
			return ""
		case "cookie":
			return cookie(s, raw)
		}
		return "?"
	}
	for _, e := range it.startWith(f, st, args) {
		if e.panic {
			continue
		}
		r.ok("exit", name+" "+p.pos(e.pos)+itoa(len(e.st.facts)))
		v := e.vals[0]
		if want == "string" {
			if m := source(e.st, v); m != "" {
				fail(e.pos, e.st, "%s: %s (%s)", name, m, v)
			}
			continue
		}
		inner := v
		narrowed := false
		for inner.Op == OpConv || inner.Op == OpChange {
			if inner.Op == OpConv {
				narrowed = true
			}
			inner = inner.Args[0]
		}
		k, bits, raw, call := strconvOf(inner, sizes)
		if raw == nil {
			// a zero result is right where the conversion is known to fail
			if v.Op == OpConst && v == it.in.zero(v.Typ) {
				ok := false
				for _, x := range it.in.byID {
					if x.Op == OpExtract && typeKey(x.Typ) == "error" && it.nilness(e.st, x) == -1 {
						if _, _, raw, _ := strconvOf(x, sizes); raw != nil && source(e.st, raw) == "" {
							ok = rt.Len() == 1 || e.vals[1] == x
						}
					}
				}
				if ok {
					continue
				}
			}
			fail(e.pos, e.st, "%s returns %s, which is no decimal conversion of the named value", name, v)
			continue
		}
		if k != want {
			fail(e.pos, e.st, "%s converts with %s, its result is %s", name, call.Name, rt.At(0).Type())
			continue
		}
		if want != "bool" && bits != wbits {
			fail(e.pos, e.st, "%s converts %d-bit values, its result has %d bits", name, bits, wbits)
			continue
		}
		_ = narrowed
		if m := source(e.st, raw); m != "" {
			fail(e.pos, e.st, "%s: %s (%s)", name, m, raw)
			continue
		}
		if rt.Len() == 2 {
			er := e.vals[1]
			good := er.Op == OpExtract && er.Args[0] == call && typeKey(er.Typ) == "error"
			if !good && er.isNil() {
				good = it.nilness(e.st, it.extract(call, 1, rt.At(1).Type())) == 1
			}
			if !good {
				fail(e.pos, e.st, "%s returns %s instead of the conversion's error", name, er)
			}
		}
	}
	r.absorb(it, name)
}
