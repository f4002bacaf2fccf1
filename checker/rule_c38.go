package main

import (
	"go/constant"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C38", "The functions that fill values are interpreted as units. Every time.Time stored into a value must be time.ParseInLocation of the input with the layout of the field's time_format tag (RFC 3339 known to be used only without one) in the location of its time_location tag, "+
		"else UTC exactly when time_utc is known true, else the local one; or time.Unix of the input as the unit known from the tag says; or the zero time, the input known empty. Every time.Duration must be time.ParseDuration of the input. "+
		"Every unit must hand the field, or the options read from its tags, on with its value.",
		map[string]int{"time": 6, "options": 3, "hand": 4}, c38)
}

type c38t struct {
	p    *Program
	r    *Report
	u    *bindUnits
	tags map[string]string // option field -> tag
	opt  types.Type        // the options
}

func c38(p *Program, r *Report) {
	c := &c38t{p: p, r: r, u: newBindUnits(p), tags: map[string]string{}}
	c.options()
	c.u.run(r, c.unit, nil)
}

// options finds the fields that carry a tag of the field.
func (c *c38t) options() {
	bad := map[string]bool{}
	for _, f := range c.p.Funcs() {
		if f.Pkg != c.p.binding {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				nt := derefT(fa.X.Type())
				name := nt.Underlying().(*types.Struct).Field(fa.Field).Name()
				v := st.Val
				if ex, ok := v.(*ssa.Extract); ok && ex.Index == 0 {
					v = ex.Tuple
				}
				call, ok := v.(*ssa.Call)
				if !ok {
					continue
				}
				if n := calleeName(call.Common()); n != "(reflect.StructTag).Get" && n != "(reflect.StructTag).Lookup" {
					continue
				}
				k, ok := call.Common().Args[1].(*ssa.Const)
				if !ok || !isStringT(k.Type()) {
					continue
				}
				tag := constString(k)
				if c.tags[name] != "" && c.tags[name] != tag {
					bad[name] = true
				}
				c.tags[name] = tag
				c.opt = nt
			}
		}
	}
	for n := range bad {
		c.r.fail("options", n, token.NoPos, nil, "the option %s is read from several tags", n)
	}
}

func constString(k *ssa.Const) string {
	if k.Value == nil {
		return ""
	}
	return constantStringVal(k)
}

func (c *c38t) unit(it *Interp, f *ssa.Function, s *State, args []*Expr) {
	p, r := c.p, c.r
	in := it.in
	name := p.fnName(f)
	fld := p.reflectType("StructField")
	var sub, opt *Expr
	for i, q := range f.Params {
		if types.Identical(q.Type(), fld) && sub == nil {
			sub = args[i]
		}
		if c.opt != nil && (types.Identical(q.Type(), c.opt) || types.Identical(q.Type(), pointerTo(c.opt))) {
			opt = args[i]
			if isPtr(q.Type()) {
				s.facts[in.eq(opt, in.zero(opt.Typ))] = false
			}
		}
	}
	u := &c24unit{it: it, args: args, f: f}
	if i, _ := c.u.valueArg(f); i >= 0 {
		u.v = args[i]
	}
	// tag: e is the given tag of the field.
	tag := func(e *Expr, want string) bool {
		e = plain(e)
		switch {
		case e.Op == OpCall && e.Name == "(reflect.StructTag).Get":
			v, ok := e.Args[1].constStr()
			t := stripChange(e.Args[0])
			return ok && v == want && sub != nil && t.Op == OpField && t.Name == "Tag" && t.Args[0] == sub
		case e.Op == OpExtract && e.Name == "0" && e.Args[0].Name == "(reflect.StructTag).Lookup":
			g := e.Args[0]
			v, ok := g.Args[1].constStr()
			t := stripChange(g.Args[0])
			return ok && v == want && sub != nil && t.Op == OpField && t.Name == "Tag" && t.Args[0] == sub
		case e.Op == OpInit && e.Args[0].Op == OpFieldAddr && opt != nil && e.Args[0].Args[0] == opt:
			return c.tags[e.Args[0].Name] == want
		case e.Op == OpField && opt != nil && e.Args[0] == opt:
			return c.tags[e.Name] == want
		}
		return false
	}
	tagged := func(want string) (out []*Expr) {
		for _, e := range in.byID {
			if isStringT2(e.Typ) && tag(e, want) {
				out = append(out, e)
			}
		}
		return
	}
	empty := func(s *State, want string) int {
		// not looked at is not known
		for _, e := range tagged(want) {
			if v := it.eqStr(s, e, ""); v != 0 {
				return v
			}
			if v := it.empty(s, e); v != 0 {
				return v
			}
			if e.Op == OpExtract {
				for _, x := range in.byID {
					if x.Op == OpExtract && x.Name == "1" && x.Args[0] == e.Args[0] && it.truth(s, x) == -1 {
						return 1
					}
				}
			}
		}
		return 0
	}
	input := func(e *Expr) bool {
		e = plain(e)
		for i, q := range f.Params {
			if isStringT(q.Type()) && args[i] == e && c.parsed(f, i, map[*ssa.Function]bool{}) {
				return true
			}
		}
		return false
	}
	// format: the layout, its unit if any.
	unit := func(s *State) string {
		for _, e := range in.byID {
			if e.Op == OpCall && e.Name == "strings.ToLower" && tag(e.Args[0], "time_format") || isStringT2(e.Typ) && tag(e, "time_format") {
				for _, k := range []string{"unix", "unixnano"} {
					if it.eqStr(s, e, k) == 1 {
						return k
					}
				}
			}
			if e.Op == OpCall && e.Name == "strings.EqualFold" && it.truth(s, e) == 1 {
				for i := range e.Args {
					if k, ok := e.Args[1-i].constStr(); ok && tag(e.Args[i], "time_format") {
						return k
					}
				}
			}
		}
		return ""
	}
	notUnit := func(s *State) bool {
		no := map[string]bool{}
		for _, e := range in.byID {
			if e.Op == OpCall && e.Name == "strings.ToLower" && tag(e.Args[0], "time_format") {
				for _, k := range []string{"unix", "unixnano"} {
					no[k] = no[k] || it.eqStr(s, e, k) == -1
				}
			}
			if e.Op == OpCall && e.Name == "strings.EqualFold" && it.truth(s, e) == -1 {
				for i := range e.Args {
					if k, ok := e.Args[1-i].constStr(); ok && tag(e.Args[i], "time_format") {
						no[k] = true
					}
				}
			}
		}
		return no["unix"] && no["unixnano"] || empty(s, "time_format") == 1
	}
	number := func(s *State, e *Expr) bool {
		e = plain(e)
		for e.Op == OpConv && len(e.Args) == 1 {
			e = e.Args[0]
		}
		if e.Op != OpExtract || e.Name != "0" || e.Args[0].Name != "strconv.ParseInt" {
			return false
		}
		g := e.Args[0]
		b, ok := g.Args[1].constInt()
		return ok && b == 10 && input(g.Args[0])
	}
	isNum := func(e *Expr, n int64) bool {
		for e = plain(e); e.Op == OpConv && len(e.Args) == 1; {
			e = plain(e.Args[0])
		}
		v, ok := e.constInt()
		return ok && v == n
	}
	binop := func(s *State, e *Expr, op string, n int64) bool {
		e = plain(e)
		return e.Op == OpBin && e.Name == op && number(s, e.Args[0]) && isNum(e.Args[1], n)
	}
	global := func(e *Expr, n string) bool {
		e = plain(e)
		return e.Op == OpInit && e.Args[0].Op == OpGlobal && e.Args[0].Glob.Pkg.Pkg.Path() == "time" && e.Args[0].Glob.Name() == n
	}
	place := func(s *State, l *Expr) string {
		l = plain(l)
		if l.Op == OpExtract && l.Name == "0" && l.Args[0].Name == "time.LoadLocation" {
			if tag(l.Args[0].Args[0], "time_location") {
				return ""
			}
			return "a location that is not the field's time_location"
		}
		if empty(s, "time_location") != 1 {
			return "a fixed location although the field may have a time_location"
		}
		utc := 0
		for _, e := range in.byID {
			if e.Op == OpExtract && e.Name == "0" && e.Args[0].Name == "strconv.ParseBool" && tag(e.Args[0].Args[0], "time_utc") {
				if v := it.truth(s, e); v != 0 {
					utc = v
				}
			}
		}
		if empty(s, "time_utc") == 1 {
			utc = -1
		}
		switch {
		case utc == 1 && !global(l, "UTC"):
			return "another location than UTC although time_utc is true"
		case utc == -1 && !global(l, "Local"):
			return "another location than the local one although no tag asks for it"
		case utc == 0:
			return "a location whatever time_utc says"
		}
		return ""
	}
	judge := func(s *State, x *Expr) string {
		x = plain(x)
		if x.Op == OpExtract && x.Name == "0" && x.Args[0].Name == "time.ParseInLocation" || x.Op == OpExtract && x.Name == "0" && x.Args[0].Name == "time.Parse" {
			g := x.Args[0]
			if !input(g.Args[1]) {
				return "a time parsed from something other than the input"
			}
			layout := plain(g.Args[0])
			if v, ok := layout.constStr(); ok {
				if v != "2006-01-02T15:04:05Z07:00" || empty(s, "time_format") != 1 {
					return "a time parsed with a fixed layout although the field may have a time_format"
				}
			} else if !tag(layout, "time_format") {
				return "a time parsed with a layout that is not the field's time_format"
			} else if empty(s, "time_format") != -1 {
				return "a time parsed with a layout that may be empty"
			}
			if !notUnit(s) {
				return "a time parsed with a layout that may be unix or unixnano"
			}
			if g.Name == "time.Parse" {
				return "a time parsed without regard to the location tags"
			}
			if w := place(s, g.Args[2]); w != "" {
				return "a time parsed in " + w
			}
			return ""
		}
		if x.Op == OpCall && (x.Name == "time.Unix") || x.Op == OpRes && x.Name == "time.Unix" {
			switch unit(s) {
			case "unix":
				if (number(s, x.Args[0]) || binop(s, x.Args[0], "/", 1)) && (isNum(x.Args[1], 0) || binop(s, x.Args[1], "%", 1)) {
					return ""
				}
			case "unixnano":
				if binop(s, x.Args[0], "/", 1e9) && binop(s, x.Args[1], "%", 1e9) || isNum(x.Args[0], 0) && number(s, x.Args[1]) {
					return ""
				}
			default:
				return "a number of seconds or nanoseconds although the field's time_format may not say so"
			}
			return "a time that is not the number in the unit of the field's time_format (" + unit(s) + ")"
		}
		if x == in.zero(x.Typ) {
			for i, q := range f.Params {
				if isStringT(q.Type()) && input(args[i]) && it.eqStr(s, args[i], "") == 1 {
					return ""
				}
			}
			return "the zero time although the input may not be empty"
		}
		return "a time that does not come from the input"
	}
	it.hooks.Store = func(s *State, fr *Frame, addr, val *Expr, instr ssa.Instruction) {
		if addr.Op != OpFieldAddr || c.tags[addr.Name] == "" {
			return
		}
		delete(s.auto, "opt:"+itoa(addr.Args[0].ID))
		if opt != nil && addr.Args[0] == opt {
			r.fail("options", name, instr.Pos(), s, "%s changes the options it was given", name)
		}
	}
	it.hooks.Call = func(s *State, ev *CallEv) {
		if ev.Instr == nil || ev.Kind == "defer-stmt" || ev.Fr == nil {
			return
		}
		if isSetter(ev.Name) && len(ev.Args) > 1 {
			a := plain(it.snapshot(s, ev.Args[1]))
			if a.Op == OpCall && a.Name == "(reflect.Value).Convert" {
				a = plain(a.Args[0])
			}
			if a.Op != OpCall && a.Op != OpRes || a.Name != "reflect.ValueOf" {
				if ev.Name == "(reflect.Value).SetInt" {
					c.duration(it, s, ev, a, input, name)
				}
				return
			}
			x := plain(a.Args[0])
			switch typeKeyOr(x.Typ) {
			case "time.Time":
				r.ok("time", name+p.pos(ev.Pos)+x.String())
				if w := judge(s, x); w != "" {
					r.fail("time", name, ev.Pos, s, "%s stores %s: %s", name, w, x)
				}
			case "time.Duration":
				c.duration(it, s, ev, x, input, name)
			}
			return
		}
		if ev.Fn == nil || !c.u.step(ev.Fr.fn, ev.Fn) && !(ev.Cut && c.u.sets(ev.Fn)) {
			return
		}
		vi, _ := c.u.valueArg(ev.Fn)
		var x *Expr
		if vi >= 0 {
			x = it.snapshot(s, ev.Args[vi])
		}
		for i, q := range ev.Fn.Params {
			a := it.snapshot(s, ev.Args[i])
			switch {
			case types.Identical(q.Type(), fld):
				r.ok("hand", name+p.pos(ev.Pos))
				if x != nil {
					k, _, idx := u.target(x)
					if k == "field" || k == "felem" {
						if w := (&c23unit{c24unit: u, c: &c23t{p: p}}); !w.sameField(s, a, idx) {
							r.fail("hand", name, ev.Pos, s, "%s hands a value on with another field's tags", name)
						}
						continue
					}
				}
				if sub != nil && a != sub {
					r.fail("hand", name, ev.Pos, s, "%s hands on %s instead of the field it was given", name, a)
				}
			case c.opt != nil && (types.Identical(q.Type(), c.opt) || types.Identical(q.Type(), pointerTo(c.opt))):
				r.ok("options", name+p.pos(ev.Pos))
				if opt != nil {
					if a != opt {
						r.fail("options", name, ev.Pos, s, "%s hands on %s instead of the options it was given", name, a)
					}
					continue
				}
				if s.auto["opt:"+itoa(a.ID)] != "" {
					continue // as checked before; nobody stores into what it is given
				}
				s.auto["opt:"+itoa(a.ID)] = "1"
				for _, fn := range sortedKeys(c.tags) {
					var v *Expr
					if isPtr(q.Type()) {
						v = it.loadField(s, a, fn)
					} else {
						v = it.fieldOf(a, fn, typString)
					}
					if v == nil || !tag(v, c.tags[fn]) {
						r.fail("options", name, ev.Pos, s, "%s hands on options whose %s is %s instead of the field's %s", name, fn, v, c.tags[fn])
					}
				}
			}
		}
	}
}

func isPtr(t types.Type) bool { _, ok := t.Underlying().(*types.Pointer); return ok }

func (c *c38t) duration(it *Interp, s *State, ev *CallEv, x *Expr, input func(*Expr) bool, name string) {
	for x.Op == OpConv && len(x.Args) == 1 {
		x = plain(x.Args[0])
	}
	if x.Op == OpExtract && x.Name == "0" && x.Args[0].Name == "time.ParseDuration" {
		c.r.ok("time", name+c.p.pos(ev.Pos)+x.String())
		if !input(x.Args[0].Args[0]) {
			c.r.fail("duration", name, ev.Pos, s, "%s stores a duration parsed from something other than the input", name)
		}
		return
	}
	if typeKeyOr(x.Typ) == "time.Duration" {
		c.r.ok("time", name+c.p.pos(ev.Pos)+x.String())
		c.r.fail("duration", name, ev.Pos, s, "%s stores %s into a duration, not the input's", name, x)
	}
}

// parsed: the function parses or stores its string parameter i.
func (c *c38t) parsed(f *ssa.Function, i int, seen map[*ssa.Function]bool) bool {
	if seen[f] || len(f.Blocks) == 0 || i >= len(f.Params) {
		return false
	}
	seen[f] = true
	var use func(v ssa.Value, d int) bool
	use = func(v ssa.Value, d int) bool {
		if v.Referrers() == nil || d > 4 {
			return false
		}
		for _, ref := range *v.Referrers() {
			switch x := ref.(type) {
			case *ssa.Phi:
				if use(x, d+1) {
					return true
				}
			case ssa.CallInstruction:
				n := calleeName(x.Common())
				for j, a := range x.Common().Args {
					if a != v {
						continue
					}
					switch n {
					case "strconv.ParseInt", "strconv.ParseUint", "strconv.ParseFloat", "strconv.ParseBool", "(reflect.Value).SetString", "time.ParseInLocation", "time.ParseDuration":
						return true
					}
					if g := x.Common().StaticCallee(); g != nil && g.Pkg == c.p.binding && c.parsed(g, j, seen) {
						return true
					}
				}
			}
		}
		return false
	}
	return use(f.Params[i], 0)
}

func constantStringVal(k *ssa.Const) string { return constant.StringVal(k.Value) }
