package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C24", "The functions that fill values from request data are interpreted as units. Units that store one value: a return that may be nil has stored into the value, a return that may be an error has stored no scalar, "+
		"and what is stored is the result of a decimal parse of the input (its error known nil), the input itself, or the zero a constant stands for when the input is empty. Units that look a key up: with the key present the value is set from it (all elements of it for slices and arrays, the first otherwise), "+
		"with the key absent from the default of the tag, and not at all when there is none. Units that walk a struct: every field is handed on or known excluded, nested structs are entered, and an allocated pointer is stored exactly when something behind it was set. The functions that convert a text to any scalar kind are interpreted once for each kind: it can be set from a text, and from the empty text without parsing it.",
		map[string]int{"leaf": 2, "store": 8, "lookup": 2, "walk": 2, "step": 8, "kinds": 14}, c24)
}

type c24t struct {
	p     *Program
	r     *Report
	u     *bindUnits
	val   map[*ssa.Function]int // string parameter a leaf parses
	self  map[*ssa.Function]bool
	defs  map[string]bool          // fields that hold the default of an option
	loops map[*ssa.BasicBlock]bool // heads of loops over the fields of a struct
}

func c24(p *Program, r *Report) {
	c := &c24t{p: p, r: r, u: newBindUnits(p), val: map[*ssa.Function]int{}, self: map[*ssa.Function]bool{}, loops: map[*ssa.BasicBlock]bool{}, defs: p.defaultFields()}
	for _, f := range p.Funcs() {
		if f.Pkg == p.binding {
			for _, b := range f.Blocks {
				if isLoopHead(b) && loopCalls(b, "(reflect.Value).Field") {
					c.loops[b] = true
				}
			}
		}
	}
	// leaves first: which parameter is the input
	type pass struct {
		h func(*Interp, *ssa.Function, *State, []*Expr)
		d func(*Interp, *ssa.Function, []*Expr, []exit)
	}
	quiet := newReport(p, "C24")
	for _, rep := range []*Report{quiet, r} {
		c.r = rep
		var cur *c24unit
		c.u.run(rep, func(it *Interp, f *ssa.Function, s *State, args []*Expr) {
			cur = c.unit(it, f, s, args)
		}, func(it *Interp, f *ssa.Function, args []*Expr, ex []exit) {
			cur.exits(ex)
		})
	}
	c24kinds(p, r, c)
}

func isLoopHead(b *ssa.BasicBlock) bool {
	for _, p := range b.Preds {
		if b.Dominates(p) {
			return true
		}
	}
	return false
}

// loopCalls: the body of the loop with head b calls name.
func loopCalls(h *ssa.BasicBlock, name string) bool {
	in := map[*ssa.BasicBlock]bool{h: true}
	var todo []*ssa.BasicBlock
	for _, p := range h.Preds {
		if h.Dominates(p) {
			todo = append(todo, p)
		}
	}
	for len(todo) > 0 {
		b := todo[0]
		todo = todo[1:]
		if in[b] {
			continue
		}
		in[b] = true
		todo = append(todo, b.Preds...)
	}
	for b := range in {
		for _, i := range b.Instrs {
			if c, ok := i.(ssa.CallInstruction); ok && calleeName(c.Common()) == name {
				return true
			}
		}
	}
	return false
}

type c24unit struct {
	c        *c24t
	it       *Interp
	f        *ssa.Function
	name     string
	args     []*Expr
	v        *Expr // the value to fill
	leaf     bool
	inputs   map[int]bool // string parameters parsed or stored
	lookups  bool
	fields   bool
	exprs    map[string]*Expr
	files    map[*Expr]*Expr // steps that set files: they succeed exactly when they set something
	defcells map[*Expr]bool  // where the default of an option was put
	pending  []func()
}

func (c *c24t) unit(it *Interp, f *ssa.Function, s *State, args []*Expr) *c24unit {
	u := &c24unit{c: c, it: it, f: f, name: c.p.fnName(f), args: args, leaf: c.u.leaf[f], inputs: map[int]bool{}, exprs: map[string]*Expr{}, files: map[*Expr]*Expr{}, defcells: map[*Expr]bool{}}
	if i, _ := c.u.valueArg(f); i >= 0 {
		u.v = args[i]
	}
	for _, b := range f.Blocks {
		if c.loops[b] {
			u.fields = true
		}
	}
	if u.leaf {
		c.r.ok("leaf", u.name)
	}
	in := it.in
	s.ghost["el"] = in.intc(0)
	s.ghost["f"] = in.intc(0)
	s.ghost["any"] = in.boolc(false)
	it.hooks.Assume = func(s *State, e *Expr, val bool) bool {
		if e.Op == OpLookupOk && isFormMap(e.Args[0].Typ) {
			s.auto["p:"+itoa(e.ID)] = strconv.FormatBool(val)
			u.exprs[itoa(e.ID)] = e
			u.lookups = true
		}
		if val && e.Op == OpBin && e.Name == "==" && e.Args[1].isNil() {
			if okE := u.files[e.Args[0]]; okE != nil {
				return it.assume(s, okE, true)
			}
		}
		if !val {
			for err, okE := range u.files {
				if okE == e {
					return it.assume(s, in.eq(err, in.zero(err.Typ)), false)
				}
			}
		}
		if val && e.Op == OpBin && e.Name == "==" && len(c.defs) > 0 {
			for _, a := range e.Args {
				if v, ok := a.constStr(); ok && v == "default" {
					s.auto["want"] = "1"
				}
			}
		}
		if x := emptyFact(e, true); x != nil {
			for a := range u.defcells {
				if s.mem[a] == x {
					s.auto["dv"] = strconv.FormatBool(!val)
				}
			}
		}
		if u.v != nil && e.Op == OpBin && e.Name == "==" && e.Args[0] == it.kindOf(u.v) {
			// the value and its type stay together
			if k, ok := e.Args[1].constInt(); ok && k == 22 {
				s.auto["vptr"] = strconv.FormatBool(val)
			}
		}
		return true
	}
	it.hooks.Store = func(s *State, fr *Frame, addr, val *Expr, instr ssa.Instruction) {
		if addr.Op == OpFieldAddr && c.defs[addr.Name] {
			u.defcells[addr] = true
			delete(s.auto, "want")
			if val.isEmptyStr() {
				delete(s.auto, "def")
			} else {
				delete(s.auto, "dv")
				s.auto["def"] = "1"
			}
		}
	}
	if i := filesParam(f); i >= 0 {
		// checked where it is called
		it.assume(s, in.lss(in.lenOf(args[i]), in.intc(1)), false)
	}
	it.hooks.Call = func(s *State, ev *CallEv) {
		if !ev.Cut || ev.Fn == nil {
			return
		}
		if i := filesParam(ev.Fn); i >= 0 && it.truth(s, in.lss(in.lenOf(ev.Args[i]), in.intc(1))) != -1 {
			u.fail(s, "files", shortName(ev.Name), ev, "%s may be given no file", c.p.fnName(ev.Fn))
		}
	}
	it.hooks.After = u.after
	it.hooks.Arrive = u.arrive
	return u
}

// filesParam is the parameter of a function that sets a value from files.
func filesParam(f *ssa.Function) int {
	for i, q := range f.Params {
		if t, ok := q.Type().Underlying().(*types.Slice); ok && strings.HasSuffix(typeKey(t.Elem()), "mime/multipart.FileHeader") {
			return i
		}
	}
	return -1
}

func (u *c24unit) keep(e *Expr) string { u.exprs[itoa(e.ID)] = e; return itoa(e.ID) }

func isFormMap(t types.Type) bool {
	m, ok := t.Underlying().(*types.Map)
	if !ok {
		return false
	}
	s, ok := m.Elem().Underlying().(*types.Slice)
	return ok && isStringT(s.Elem()) && isStringT(m.Key())
}

func isFileMap(t types.Type) bool {
	m, ok := t.Underlying().(*types.Map)
	return ok && strings.HasSuffix(typeKey(m.Elem()), "mime/multipart.FileHeader")
}

// target says how a reflect.Value relates to the value to fill.
func (u *c24unit) target(x *Expr) (kind string, base, idx *Expr) {
	x = stripChange(x)
	if x == u.v {
		return "self", x, nil
	}
	if x.Op != OpCall {
		if x.Op == OpRes && x.Name == "reflect.New" {
			return "ptr", x, nil
		}
		return "", nil, nil
	}
	switch x.Name {
	case "reflect.Indirect":
		if x.Args[0] == u.v {
			return "elem", x, nil
		}
	case "(reflect.Value).Elem":
		y := stripChange(x.Args[0])
		if y.Op == OpRes && y.Name == "reflect.New" {
			return "new", y, nil
		}
		switch k, b, i := u.target(y); k {
		case "self":
			return "elem", b, nil
		case "field":
			return "felem", b, i
		}
		for _, a := range u.it.in.alternatives(y) {
			if a.Op == OpRes && a.Name == "reflect.New" && y.Op == OpSym {
				return "new", y, nil
			}
		}
	case "(reflect.Value).Field":
		if k, _, _ := u.target(x.Args[0]); k == "self" || k == "elem" || k == "vself" {
			return "field", x, x.Args[1]
		}
		if u.symSelf(x.Args[0]) {
			return "field", x, x.Args[1]
		}
	case "(reflect.Value).Index":
		return "index", x.Args[0], x.Args[1]
	}
	return "", nil, nil
}

// symSelf: a symbol that stands for the value or what it points to.
func (u *c24unit) symSelf(x *Expr) bool {
	if x.Op != OpSym {
		return false
	}
	for _, a := range u.it.in.alternatives(x) {
		if k, _, _ := u.target(a); k != "self" && k != "elem" {
			return false
		}
	}
	return true
}

func (u *c24unit) valueParams() []int {
	var out []int
	for i, q := range u.f.Params {
		if isStringT(q.Type()) {
			out = append(out, i)
		}
	}
	return out
}

// input notes where a parsed or stored string comes from; "" is fine.
func (u *c24unit) input(s *State, e *Expr) string {
	e = strip(e)
	for e.Op == OpConv && len(e.Args) == 1 {
		e = strip(e.Args[0])
	}
	for _, i := range u.valueParams() {
		if e == u.args[i] {
			u.inputs[i] = true
			return ""
		}
	}
	if v, ok := e.constStr(); ok {
		zero := v == "" || v == "false"
		if f, err := strconv.ParseFloat(v, 64); err == nil && f == 0 {
			zero = true
		}
		for _, i := range u.valueParams() {
			if zero && u.it.eqStr(s, u.args[i], "") == 1 {
				u.inputs[i] = true
				return ""
			}
		}
	}
	return e.String()
}

// parsed checks the parses in a stored expression; n counts them.
func (u *c24unit) parsed(s *State, e *Expr) (n int, why string) {
	it := u.it
	seen := map[*Expr]bool{}
	var rec func(x *Expr)
	rec = func(x *Expr) {
		if x == nil || seen[x] || why != "" {
			return
		}
		seen[x] = true
		if x.Op == OpExtract && x.Name == "0" && x.Args[0].Op == OpCall {
			call := x.Args[0]
			var inp *Expr
			switch call.Name {
			case "strconv.ParseInt", "strconv.ParseUint":
				inp = call.Args[0]
				if b, ok := call.Args[1].constInt(); !ok || b != 10 {
					why = "is not parsed as a decimal number"
					return
				}
			case "strconv.ParseFloat", "strconv.ParseBool", "strconv.Atoi", "time.ParseDuration", "strconv.ParseComplex":
				inp = call.Args[0]
			case "time.Parse", "time.ParseInLocation":
				inp = call.Args[1]
			}
			if inp != nil {
				n++
				if it.nilness(s, it.extract(call, 1, typError)) != 1 {
					why = "comes from a parse that may have failed"
					return
				}
				if bad := u.input(s, inp); bad != "" {
					why = "is parsed from " + bad + " instead of the input"
				}
				return
			}
		}
		for _, a := range x.Args {
			rec(a)
		}
		if x.Op == OpSym {
			for _, a := range it.in.alternatives(x) {
				if a != x {
					rec(a)
				}
			}
		}
	}
	rec(e)
	return
}

// class says where the value of a string or a list of strings comes from.
func (u *c24unit) class(s *State, e *Expr) string {
	e = strip(e)
	form, file := false, false
	u.it.in.walk(e, func(x *Expr) bool {
		if x.Op == OpLookup && isFormMap(x.Args[0].Typ) {
			form = true
			return false
		}
		if x.Op == OpLookup && isFileMap(x.Args[0].Typ) || strings.HasSuffix(typeKeyOr(x.Typ), "multipart.FileHeader") {
			file = true
			return false
		}
		return true
	})
	def := u.it.fromTag(e) && !u.it.in.mentions(e, func(x *Expr) bool {
		// another tag
		return x.Op == OpCall && (x.Name == "(reflect.StructTag).Get" || x.Name == "(reflect.StructTag).Lookup") && len(x.Args) == 2 && x.Args[1].Op == OpConst
	}) || u.it.in.mentions(e, func(x *Expr) bool {
		return (x.Op == OpField || x.Op == OpFieldAddr) && u.c.defs[x.Name]
	})
	for _, k := range sortedKeys(s.auto) {
		if strings.HasPrefix(k, "p:") && u.exprs[k[2:]].Args[1] == e {
			def = false // the name
		}
	}
	if e.Op == OpSym && form && def {
		return "mixed"
	}
	switch {
	case file:
		return "file"
	case form:
		return "input"
	case def:
		return "default"
	}
	for i, q := range u.f.Params {
		if e == u.args[i] && i > 0 && isStringT(q.Type()) {
			return "param"
		}
	}
	return ""
}

func typeKeyOr(t types.Type) string {
	if t == nil {
		return ""
	}
	return typeKey(t)
}

// element recognises l[i].
func element(e *Expr) (l, i *Expr) {
	e = strip(e)
	if e.Op == OpIndex {
		return e.Args[0], e.Args[1]
	}
	if e.Op == OpInit && e.Args[0].Op == OpIndexAddr {
		return e.Args[0].Args[0], e.Args[0].Args[1]
	}
	return nil, nil
}

func (u *c24unit) fail(s *State, rule, what string, ev *CallEv, f string, a ...any) {
	u.c.r.fail(rule, u.c.p.fnName(ev.Fr.fn)+" "+what, ev.Pos, s, f, a...)
}

func (u *c24unit) after(s *State, ev *CallEv, res *Expr) {
	if ev.Instr == nil || ev.Kind == "defer-stmt" || ev.Fr == nil {
		return
	}
	it, c := u.it, u.c
	in := it.in
	rv, sf := c.p.reflectType("Value"), c.p.reflectType("StructField")
	short := strings.TrimPrefix(ev.Name, "(reflect.Value).")
	if isSetter(ev.Name) {
		if len(ev.Args) < 2 {
			return
		}
		u.set(s, ev, short)
		return
	}
	if pure(it, s, ev) {
		return
	}
	// a step: a value and an error
	sig := ev.Instr.Common().Signature()
	if !returnsError(sig) || res == nil {
		return
	}
	n := sig.Results().Len()
	err := res
	var okE *Expr
	if n > 1 {
		err = it.extract(res, n-1, typError)
		if isBoolT(sig.Results().At(0).Type()) {
			okE = it.extract(res, 0, typBool)
		}
	}
	if okE != nil && ev.Fn != nil && filesParam(ev.Fn) >= 0 {
		u.files[err] = okE
	}
	var x, fld *Expr
	for _, a := range ev.Args {
		if a.Typ != nil && types.Identical(a.Typ, rv) && x == nil {
			x = a
		}
		if a.Typ != nil && types.Identical(a.Typ, sf) {
			fld = a
		}
	}
	if x == nil {
		// a decoder that is given the address of the value
		for _, a := range ev.Args {
			y := strip(a)
			if y.Op == OpCall && y.Name == "(reflect.Value).Interface" {
				if z := stripChange(y.Args[0]); z.Op == OpCall && z.Name == "(reflect.Value).Addr" {
					x = z.Args[0]
				} else {
					x = in.mk(Expr{Op: OpCall, Name: "(reflect.Value).Elem", Args: []*Expr{z}, Typ: rv})
				}
			}
		}
		if x == nil || !u.leaf {
			return
		}
		k, base, _ := u.target(x)
		if k == "" {
			return
		}
		c.r.ok("store", u.c.p.fnName(ev.Fr.fn)+" "+shortName(ev.Name)+c.p.pos(ev.Pos))
		good := false
		for _, a := range ev.Args {
			if isStringT(a.Typ) || strings.HasPrefix(typeKeyOr(a.Typ), "[]") {
				if bad := u.input(s, a); bad == "" {
					good = true
				}
			}
		}
		if !good {
			u.fail(s, "source", shortName(ev.Name), ev, "%s decodes something other than the input", c.p.fnName(ev.Fr.fn))
		}
		if k == "new" {
			s.auto["new:"+u.keep(base)] = u.keep(err)
		} else {
			u.stored(s, "d:"+u.keep(err))
		}
		return
	}
	k, base, idx := u.target(x)
	what := shortName(ev.Name)
	if u.v == nil {
		return
	}
	if k == "new" {
		if y := u.exprs[s.auto["ptrset:"+itoa(base.ID)]]; y != nil {
			// stored already: this is what the field points to
			k, base, idx = u.target(y)
			if k == "field" {
				k = "felem"
			}
		}
	}
	if k == "" {
		u.fail(s, "target", what, ev, "%s fills %s, which is not part of the value it was given", u.name, x)
		return
	}
	c.r.ok("step", u.name+" "+what+c.p.pos(ev.Pos))
	s.auto["e:"+u.keep(err)] = ev.Name
	if fld != nil {
		switch k {
		case "self", "elem", "new", "index":
			for i, q := range u.f.Params {
				if types.Identical(q.Type(), sf) && stripChange(fld) != u.args[i] {
					u.fail(s, "field", what, ev, "%s is given the description of another field", what)
				}
			}
		case "field", "felem":
			ft := stripChange(fld)
			j := (*Expr)(nil)
			if ft.Op == OpCall && ft.Name == "(reflect.Type).Field" {
				j = ft.Args[1]
			}
			if j == nil {
				u.fail(s, "field", what, ev, "%s is given the description of another field", what)
			} else if d, ok := it.exact(s, idx, j); !ok || d != 0 {
				u.fail(s, "field", what, ev, "%s is given the description of another field", what)
			}
		}
	}
	// what string goes with it
	var str *Expr
	callee := ev.Fn
	if callee != nil && c.u.leaf[callee] {
		if i, ok := c.val[callee]; ok {
			str = ev.Args[i]
		} else if callee == u.f {
			// a recursive leaf: its input must be this one's
			args := ev.Args
			st := s.clone()
			evc := *ev
			u.pending = append(u.pending, func() {
				if i, ok := c.val[u.f]; ok && strip(args[i]) != u.args[i] {
					u.fail(st, "source", what, &evc, "%s hands on something other than its input", u.name)
				}
			})
		}
	}
	cls := ""
	if str != nil {
		cls = u.class(s, str)
		if v, ok := str.constStr(); ok && v == "" {
			for _, k := range sortedKeys(s.auto) {
				if strings.HasPrefix(k, "p:") && s.auto[k] == "true" {
					l := u.exprs[k[2:]]
					lk := in.mk(Expr{Op: OpLookup, Name: l.Name, Args: l.Args, Typ: l.Args[0].Typ.Underlying().(*types.Map).Elem()})
					if it.empty(s, lk) == 1 {
						cls = "input"
					}
				}
			}
		}
		if cls == "param" && u.leaf {
			u.input(s, str)
		}
	}
	switch k {
	case "index":
		l, j := (*Expr)(nil), (*Expr)(nil)
		if str != nil {
			if l, j = element(str); l == nil && cls == "default" {
				// the only element of a list made of the default
				j = in.intc(0)
			}
			u.elem(s, ev, base, idx, l, j, cls)
		} else {
			j = idx
			for _, a := range ev.Args {
				if a = stripChange(a); a.Op == OpSlice && strings.HasSuffix(typeKeyOr(a.Typ), "multipart.FileHeader") {
					if j = a.Args[1]; j == nil {
						j = in.intc(0)
					}
				}
			}
			u.elem(s, ev, base, idx, nil, j, "file")
		}
		s.auto["did"] = "1"
	case "self", "elem":
		if callee != u.f || c.u.leaf[callee] {
			u.noteSelf()
		}
		if u.leaf {
			u.stored(s, "d:"+u.keep(err))
			break
		}
		if str != nil {
			if cls == "input" {
				if l, j := element(str); l != nil {
					if d, ok := j.constInt(); !ok || d != 0 {
						cls = "another element of the input"
					}
				}
			}
			s.auto["src"] = cls
		}
		s.auto["did"] = "1"
		if k == "self" && okE != nil {
			s.auto["selfok"] = u.keep(okE)
		}
		if k == "elem" {
			s.auto["elem"] = "1"
		}
		u.anyOf(s, okE)
	case "new":
		s.auto["new:"+u.keep(base)] = u.keep(err)
		if okE != nil {
			s.auto["nok:"+u.keep(base)] = u.keep(okE)
		}
		s.auto["did"] = "1"
		s.auto["elem"] = "1"
		u.anyOf(s, okE)
	case "field", "felem":
		if d, ok := it.exact(s, idx, s.ghost["f"]); ok && d == 0 {
			mark := ""
			if callee == nil || c.self[callee] {
				mark += "S"
			}
			if callee != nil && (callee == u.f || c.p.fnReaches(callee, map[*ssa.Function]bool{}, func(g *ssa.Function) bool { return g == u.f })) {
				mark += "D"
			}
			s.auto["fs"] = mergeMarks(s.auto["fs"], mark)
			s.auto["fx"] = u.keep(x)
		}
		s.auto["did"] = "1"
		u.anyOf(s, okE)
	}
}

func mergeMarks(a, b string) string {
	out := ""
	for _, m := range []string{"S", "D"} {
		if strings.Contains(a, m) || strings.Contains(b, m) {
			out += m
		}
	}
	return out
}

// noteSelf: the unit hands on the very value it was given.
func (u *c24unit) noteSelf() { u.c.self[u.f] = true }

func (u *c24unit) stored(s *State, how string) {
	if s.auto["st"] != "1" {
		s.auto["st"] = how
	}
}

// anyOf notes the result of a step that says whether it set something.
func (u *c24unit) anyOf(s *State, okE *Expr) {
	if okE == nil {
		return
	}
	u.flush(s)
	s.auto["pend"] = u.keep(okE)
}

// flush combines the pending result with what was known before.
func (u *c24unit) flush(s *State) {
	id := s.auto["pend"]
	if id == "" {
		return
	}
	delete(s.auto, "pend")
	okE := u.exprs[id]
	any := s.ghost["any"]
	switch {
	case u.it.truth(s, any) == 1 || u.it.truth(s, okE) == 1:
		s.ghost["any"] = u.it.in.boolc(true)
	case u.it.truth(s, okE) == -1:
	case u.it.truth(s, any) == -1:
		s.ghost["any"] = okE
	default:
		s.auto["anybad"] = "1"
	}
}

// elem: element idx of base is set from element j of a list.
func (u *c24unit) elem(s *State, ev *CallEv, base, idx, l, j *Expr, cls string) {
	it := u.it
	role := "m"
	if base == u.v {
		role = "v"
	}
	d, ok := int64(0), false
	if j != nil {
		d, ok = it.exact(s, idx, j)
	}
	e, ok2 := it.exact(s, idx, s.ghost["el"])
	if !ok || d != 0 {
		u.fail(s, "element", shortName(ev.Name), ev, "%s sets an element from another element of the input", u.name)
		return
	}
	if !ok2 || e != 0 || s.auto["el"] != "" && s.auto["el"] != role {
		return
	}
	s.auto["el"] = role
	s.auto["elsrc"] = cls
	if l != nil {
		s.auto["ellist"] = u.keep(l)
	}
	s.ghost["el"] = it.in.addc(idx, 1)
}

// set handles a store into a reflect.Value.
func (u *c24unit) set(s *State, ev *CallEv, short string) {
	it, c := u.it, u.c
	in := it.in
	x, v := ev.Args[0], ev.Args[1]
	k, base, idx := u.target(x)
	fn := c.p.fnName(ev.Fr.fn)
	c.r.ok("store", fn+" "+short+c.p.pos(ev.Pos))
	if short == "SetMapIndex" {
		return
	}
	// a pointer is stored
	ptr := stripChange(v)
	isPtr := false
	if short == "Set" {
		for _, a := range in.alternatives(ptr) {
			if a.Op == OpRes && a.Name == "reflect.New" {
				isPtr = true
			}
		}
	}
	if isPtr {
		filled := s.auto["new:"+itoa(ptr.ID)]
		if filled != "" {
			if it.nilness(s, u.exprs[filled]) != 1 {
				u.fail(s, "pointer", "early", ev, "%s stores a new pointer before what is behind it was set successfully", fn)
			}
			if ok := s.auto["nok:"+itoa(ptr.ID)]; ok != "" && it.truth(s, u.exprs[ok]) != 1 {
				u.fail(s, "pointer", "unset", ev, "%s stores a new pointer although nothing behind it may have been set", fn)
			}
			s.auto["ptrset:"+itoa(ptr.ID)] = "1"
			if u.leaf {
				u.stored(s, "1")
			} else {
				s.auto["did"] = "1"
			}
			return
		}
		// a container that is allocated on the way to its fields
		t := in.mk(Expr{Op: OpCall, Name: "(reflect.Type).Elem", Args: []*Expr{it.typeOfValue(x)}, Typ: c.p.reflectType("Type")})
		if !u.leaf && u.structKnown(s, t, idx) && !u.timePossible(s, t) {
			s.auto["ptrset:"+itoa(ptr.ID)] = "1"
			if k == "field" {
				s.auto["ptrset:"+itoa(ptr.ID)] = u.keep(x)
			}
			return
		}
		u.fail(s, "pointer", "early", ev, "%s stores a new pointer before what is behind it was set", fn)
		return
	}
	if k == "new" || k == "index" && u.leaf {
		return
	}
	if u.leaf {
		if k != "self" && k != "elem" {
			u.fail(s, "target", short, ev, "%s stores into something other than its value", fn)
			return
		}
		switch short {
		case "SetString":
			if bad := u.input(s, v); bad != "" {
				u.fail(s, "source", short, ev, "%s stores %s instead of the input", fn, bad)
			}
		default:
			e := v
			n, why := u.parsed(s, e)
			if why != "" {
				u.fail(s, "source", short, ev, "%s stores a value that %s", fn, why)
			} else if n == 0 && u.input(s, in.constOf(constStrEmpty, types.Typ[types.String])) != "" {
				u.fail(s, "source", short, ev, "%s stores %s, which does not come from the input", fn, e)
			}
		}
		u.stored(s, "1")
		return
	}
	// slices and files
	for _, k := range sortedKeys(s.auto) {
		if strings.HasPrefix(k, "e:") && it.nilness(s, u.exprs[k[2:]]) != 1 {
			u.fail(s, "kept", short, ev, "%s stores into the value although %s may have failed", fn, shortName(s.auto[k]))
		}
	}
	switch k {
	case "index":
		y := stripIface(stripChange(v))
		cls := u.class(s, y)
		var j *Expr
		if y.Op == OpCall && y.Name == "reflect.ValueOf" {
			_, j = element(y.Args[0])
		}
		if j == nil {
			u.fail(s, "element", short, ev, "%s sets an element to %s", fn, v)
			return
		}
		u.elem(s, ev, base, idx, nil, j, cls)
	case "self", "elem":
		y := stripChange(v)
		cls := ""
		made := false
		for _, a := range in.alternatives(y) {
			if a.Op == OpRes && a.Name == "reflect.MakeSlice" {
				made = true
			}
		}
		if made {
			cls = u.wholeSlice(s, y)
		} else {
			cls = u.class(s, y)
			if z := stripIface(y); cls == "file" && z.Op == OpCall && z.Name == "reflect.ValueOf" {
				eachArg(z.Args[0], func(x *Expr) bool {
					if l, j := element(x); l != nil && strings.HasSuffix(typeKeyOr(l.Typ), "multipart.FileHeader") {
						if n, ok := j.constInt(); !ok || n != 0 {
							u.fail(s, "element", short, ev, "%s stores another file than the first", fn)
						}
						return false
					}
					return true
				})
			}
		}
		if cls == "" {
			u.fail(s, "source", short, ev, "%s stores %s, which does not come from the request", fn, v)
		}
		if strings.HasPrefix(cls, "!") {
			u.fail(s, "element", short, ev, "%s stores a slice %s", fn, cls[1:])
		}
		s.auto["src"] = cls
		s.auto["did"] = "1"
	default:
		u.fail(s, "target", short, ev, "%s stores into something other than its value", fn)
	}
}

var constStrEmpty = constantString("")

// wholeSlice checks that every element of a made slice was set.
func (u *c24unit) wholeSlice(s *State, m *Expr) string {
	it := u.it
	if m.Op != OpRes {
		return "!whose length is not known"
	}
	n := m.Args[1]
	if s.auto["el"] == "m" {
		if it.truth(s, it.in.lss(s.ghost["el"], n)) != -1 {
			return "!of which not every element was set"
		}
		if l := u.exprs[s.auto["ellist"]]; s.auto["ellist"] != "" && it.truth(s, it.in.lss(n, it.in.lenOf(l))) != -1 {
			return "!that is shorter than the input"
		}
		return s.auto["elsrc"]
	}
	if it.truth(s, it.in.lss(it.in.intc(0), n)) == 1 || it.truth(s, it.in.lss(n, it.in.intc(1))) != 1 {
		return "!of which not every element was set"
	}
	cls := ""
	it.in.walk(n, func(x *Expr) bool {
		if x.Op == OpLen {
			cls = u.class(s, x.Args[0])
		}
		return true
	})
	return cls
}

// fieldTypes lists the description of field i as it occurs in the facts.
func (u *c24unit) factAbout(s *State, idx *Expr, name string, pred func(f *Expr, v bool, x *Expr) bool) bool {
	for f, v := range s.facts {
		hit := false
		u.it.in.walk(f, func(x *Expr) bool {
			if x.Op == OpField && x.Name == name && x.Args[0].Op == OpCall && x.Args[0].Name == "(reflect.Type).Field" {
				j := x.Args[0].Args[1]
				if j == idx {
					hit = hit || pred(f, v, x)
				} else if d, ok := u.it.exact(s, j, idx); ok && d == 0 {
					hit = hit || pred(f, v, x)
				}
			}
			return !hit
		})
		if hit {
			return true
		}
	}
	return false
}

func (u *c24unit) anonymous(s *State, idx *Expr) int {
	r := 0
	u.factAbout(s, idx, "Anonymous", func(f *Expr, v bool, x *Expr) bool {
		if f == x {
			r = b2i(v)
			return true
		}
		return false
	})
	return r
}

func (u *c24unit) kindIs(s *State, t *Expr, k int64) int {
	kt := u.c.p.reflectType("Kind")
	e := u.it.in.mk(Expr{Op: OpCall, Name: "(reflect.Type).Kind", Args: []*Expr{t}, Typ: kt})
	return u.it.truth(s, u.it.in.eq(e, u.it.typedInt(k, kt)))
}

// structKnown: the field is embedded or of a struct type.
func (u *c24unit) structKnown(s *State, t, idx *Expr) bool {
	return u.kindIs(s, t, 25) == 1 || idx != nil && u.anonymous(s, idx) == 1
}

// sameType compares a type with the one an expression is known to be.
func isTypeOf(e *Expr, name string) bool {
	e = stripChange(e)
	if e.Op == OpCall && e.Name == "(reflect.Type).Elem" {
		if x := stripChange(e.Args[0]); x.Op == OpCall && x.Name == "reflect.TypeOf" {
			a := heldType(x.Args[0])
			return a != nil && derefT(a) != nil && typeKey(derefT(a)) == name
		}
	}
	if e.Op == OpCall && e.Name == "reflect.TypeOf" {
		a := heldType(e.Args[0])
		return a != nil && typeKey(a) == name
	}
	return false
}

// dynType is the type of what an interface holds.
func heldType(e *Expr) types.Type {
	e = stripChange(e)
	if e.Op == OpIface {
		return e.Args[0].Typ
	}
	if !types.IsInterface(e.Typ) {
		return e.Typ
	}
	return nil
}

// typeIs decides t == the named type from the facts.
func (u *c24unit) typeIs(s *State, t *Expr, name string) int {
	r := 0
	for f, v := range s.facts {
		if f.Op == OpBin && f.Name == "==" {
			a, b := stripChange(f.Args[0]), stripChange(f.Args[1])
			if a == t && isTypeOf(b, name) || b == t && isTypeOf(a, name) {
				r = b2i(v)
			}
		}
	}
	return r
}

// embedded: the value is the struct of an embedded field.
func (u *c24unit) embedded(s *State) bool {
	if u.kindIs(s, u.it.typeOfValue(u.v), 25) != 1 {
		return false
	}
	for i, q := range u.f.Params {
		if types.Identical(q.Type(), u.c.p.reflectType("StructField")) {
			return u.it.truth(s, u.it.fieldOf(u.args[i], "Anonymous", typBool)) == 1
		}
	}
	return true
}

func (u *c24unit) timePossible(s *State, t *Expr) bool { return u.typeIs(s, t, "time.Time") != -1 }

// container: the value is, or points to, a struct whose fields are bound.
func (u *c24unit) containerPossible(s *State, x, idx *Expr) bool {
	t := u.it.typeOfValue(x)
	if u.anonymous(s, idx) != -1 {
		return true
	}
	if u.kindIs(s, t, 25) != -1 && u.typeIs(s, t, "time.Time") != 1 {
		return true
	}
	if u.kindIs(s, t, 22) != -1 {
		e := u.it.in.mk(Expr{Op: OpCall, Name: "(reflect.Type).Elem", Args: []*Expr{t}, Typ: u.c.p.reflectType("Type")})
		if u.kindIs(s, e, 25) != -1 && u.typeIs(s, e, "time.Time") != 1 && u.typeIs(s, e, "mime/multipart.FileHeader") != 1 && u.typeIs(s, t, "*mime/multipart.FileHeader") != 1 {
			return true
		}
	}
	return false
}

func (u *c24unit) arrive(s *State, fr *Frame, blk *ssa.BasicBlock, back bool) {
	if !back {
		return
	}
	u.flush(s)
	u.settled(s, instrPos(blk.Instrs[0]))
	for _, k := range sortedKeys(s.auto) {
		if strings.HasPrefix(k, "ptrset:") {
			delete(s.auto, k)
			delete(s.auto, "new:"+k[7:])
			delete(s.auto, "nok:"+k[7:])
		}
	}
	if !u.c.loops[blk] {
		return
	}
	it := u.it
	i := s.ghost["f"]
	fs, fx := s.auto["fs"], s.auto["fx"]
	delete(s.auto, "fs")
	delete(s.auto, "fx")
	s.ghost["f"] = it.in.addc(i, 1)
	u.c.r.ok("walk", u.name)
	dash := u.factAbout(s, i, "Tag", func(f *Expr, v bool, x *Expr) bool {
		return u.dashFact(s, f, v) != nil
	})
	if dash {
		return
	}
	hidden := u.factAbout(s, i, "PkgPath", func(f *Expr, v bool, x *Expr) bool {
		return !v && emptyFact(f, true) == x
	})
	if hidden && u.anonymous(s, i) == -1 {
		return
	}
	if !strings.Contains(fs, "S") {
		u.c.r.fail("skipped", u.name, instrPos(blk.Instrs[0]), s, "%s may leave out a field that is not excluded", u.name)
		return
	}
	if !strings.Contains(fs, "D") && u.containerPossible(s, u.exprs[fx], i) {
		u.c.r.fail("entered", u.name, instrPos(blk.Instrs[0]), s, "%s may not enter a nested struct", u.name)
	}
}

// settled: the steps so far have succeeded and no default was passed over.
func (u *c24unit) settled(s *State, pos token.Pos) {
	if s.auto["want"] != "" {
		u.c.r.fail("option", u.name, pos, s, "%s may pass over a default that is declared", u.name)
		delete(s.auto, "want")
	}
	for _, k := range sortedKeys(s.auto) {
		if strings.HasPrefix(k, "e:") {
			if u.it.nilness(s, u.exprs[k[2:]]) != 1 {
				u.c.r.fail("swallowed", u.name+" "+shortName(s.auto[k]), pos, s, "%s may go on after %s has failed", u.name, shortName(s.auto[k]))
			}
			delete(s.auto, k)
		}
	}
}

func (e *Expr) isEmptyStr() bool { v, ok := e.constStr(); return ok && v == "" }

func (u *c24unit) exits(ex []exit) {
	it, c, r := u.it, u.c, u.c.r
	in := it.in
	if len(u.inputs) == 1 {
		for i := range u.inputs {
			c.val[u.f] = i
		}
	} else if len(u.inputs) > 1 {
		r.fail("source", u.name, u.f.Pos(), nil, "%s stores from more than one of its string parameters", u.name)
	}
	for _, f := range u.pending {
		f()
	}
	for _, e := range ex {
		if e.panic {
			continue
		}
		s := e.st
		err := e.vals[len(e.vals)-1]
		if u.leaf {
			if s.auto["st"] == "1" && it.nilness(s, err) != 1 {
				r.fail("kept", u.name, e.pos, s, "%s may report an error after it has changed the value", u.name)
			}
		}
		if it.nilness(s, err) == -1 {
			continue
		}
		n := s.clone()
		if !it.assume(n, in.eq(err, in.zero(err.Typ)), true) {
			continue
		}
		u.settled(n, e.pos)
		if u.leaf {
			if s.auto["st"] == "" {
				r.fail("ignored", u.name, e.pos, s, "%s may return nil without having stored anything", u.name)
			}
			continue
		}
		if u.v == nil {
			continue
		}
		if filesParam(u.f) >= 0 && len(e.vals) == 2 && isBoolT(e.vals[0].Typ) && it.truth(n, e.vals[0]) != 1 {
			r.fail("reported", u.name+" files", e.pos, n, "%s may succeed without reporting that it set the value", u.name)
		}
		u.flush(n)
		var okE *Expr
		if len(e.vals) == 2 && isBoolT(e.vals[0].Typ) {
			okE = e.vals[0]
		}
		if u.lookups {
			u.lookupExit(e, n, okE)
			continue
		}
		u.walkExit(e, n, okE)
	}
}

func (u *c24unit) lookupExit(e exit, n *State, okE *Expr) {
	it, r := u.it, u.c.r
	in := it.in
	var oks []*Expr
	seen := map[*Expr]bool{}
	for _, k := range sortedKeys(n.auto) {
		if strings.HasPrefix(k, "p:") {
			oks = append(oks, u.exprs[k[2:]])
			seen[u.exprs[k[2:]]] = true
		}
	}
	for f := range n.facts {
		if len(seen) > 0 {
			break
		}
		eachArg(f, func(x *Expr) bool {
			if (x.Op == OpLookup || x.Op == OpLookupOk) && isFormMap(x.Args[0].Typ) {
				o := in.mk(Expr{Op: OpLookupOk, Name: x.Name, Args: x.Args, Typ: typBool})
				if !seen[o] {
					seen[o] = true
					oks = append(oks, o)
				}
			}
			return true
		})
	}
	src := n.auto["src"]
	if len(oks) == 0 {
		if src != "" {
			r.fail("source", u.name+" none", e.pos, n, "%s sets the value without having looked the key up", u.name)
		}
		return
	}
	for _, o := range oks {
		r.ok("lookup", u.name)
		for _, present := range []bool{true, false} {
			m := n.clone()
			if k := n.auto["p:"+itoa(o.ID)]; k != "" && k != strconv.FormatBool(present) {
				continue
			}
			if !it.assume(m, o, present) {
				continue
			}
			l := in.mk(Expr{Op: OpLookup, Name: o.Name, Args: o.Args, Typ: o.Args[0].Typ.Underlying().(*types.Map).Elem()})
			src := src
			if src == "" && m.auto["el"] == "v" {
				if u.allSet(m) {
					src = m.auto["elsrc"]
				} else {
					src = "only some elements"
				}
			}
			set := src != ""
			if present {
				if src == "" && u.kindIs(m, it.typeOfValue(u.v), 17) == 1 && it.empty(m, l) == 1 {
					set = true
				} else if src != "input" {
					what := "from " + src
					if src == "" {
						what = "not at all"
					}
					r.fail("present", u.name, e.pos, m, "%s may set the value %s although the key is present", u.name, what)
				}
			} else if src == "" {
				if !u.noDefault(m) {
					r.fail("default", u.name, e.pos, m, "%s may leave the value unset although the key is absent and there is a default", u.name)
				}
				// a file of that name
				for f, v := range m.facts {
					if v && f.Op == OpLookupOk && isFileMap(f.Args[0].Typ) {
						fl := in.mk(Expr{Op: OpLookup, Name: f.Name, Args: f.Args, Typ: f.Args[0].Typ.Underlying().(*types.Map).Elem()})
						if it.empty(m, fl) != 1 {
							r.fail("file", u.name, e.pos, m, "%s may leave the value unset although a file was sent for it", u.name)
						}
					}
				}
			} else if src != "default" && src != "file" {
				r.fail("absent", u.name, e.pos, m, "%s may set the value (from %s) although the key is absent", u.name, src)
			} else if src == "file" && !u.noDefault(m) {
				r.fail("default", u.name, e.pos, m, "%s may ignore the default", u.name)
			}
			if okE != nil {
				if t := it.truth(m, okE); t != b2i(set) {
					r.fail("reported", u.name, e.pos, m, "%s does not report whether it set the value", u.name)
				}
			}
		}
	}
}

// allSet: every element of the array was set.
func (u *c24unit) allSet(m *State) bool {
	in := u.it.in
	ln := in.mk(Expr{Op: OpCall, Name: "(reflect.Value).Len", Args: []*Expr{u.v}, Typ: typInt})
	return u.it.truth(m, in.lss(m.ghost["el"], ln)) == -1
}

// eachArg visits an expression and what it is written with, and not what its
// symbols stand for.
func eachArg(e *Expr, f func(*Expr) bool) {
	if e == nil || !f(e) {
		return
	}
	for _, a := range e.Args {
		eachArg(a, f)
	}
}

// dashFact returns the tag (or the name in it) a fact says is "-", or "-"
// followed by options.
func (u *c24unit) dashFact(s *State, f *Expr, v bool) *Expr {
	if !v {
		return nil
	}
	switch {
	case f.Op == OpCall && f.Name == "strings.HasPrefix":
		if c, ok := f.Args[1].constStr(); ok && c == "-," {
			return f.Args[0]
		}
	case f.Op == OpBin && f.Name == "==":
		for i := 0; i < 2; i++ {
			e := f.Args[1-i]
			if c, ok := f.Args[i].constStr(); ok && c == "-" {
				return e
			}
			if c, ok := f.Args[i].constInt(); ok && c == '-' {
				for e.Op == OpConv {
					e = e.Args[0]
				}
				if l, j := element(e); l != nil {
					if n, ok := j.constInt(); ok && n == 0 && u.it.truth(s, u.it.in.eq(u.it.in.lenOf(l), u.it.in.intc(1))) == 1 {
						return l
					}
				}
			}
		}
	}
	return nil
}

// emptyFact returns the string a fact says is empty.
func emptyFact(f *Expr, v bool) *Expr {
	if f.Op != OpBin || !v {
		return nil
	}
	switch f.Name {
	case "==":
		for i := 0; i < 2; i++ {
			if f.Args[i].isEmptyStr() {
				return f.Args[1-i]
			}
		}
	case "<":
		if n, ok := f.Args[1].constInt(); ok && n == 1 && f.Args[0].Op == OpLen {
			return f.Args[0].Args[0]
		}
	}
	return nil
}

// noDefault: a default taken from the tag is known to be empty.
func (u *c24unit) noDefault(s *State) bool {
	for f, v := range s.facts {
		if x := emptyFact(f, v); x != nil && u.class(s, x) == "default" && u.isDefault(x) {
			return true
		}
	}
	if s.auto["dv"] == "false" {
		return true
	}
	// the options were read and none of them was a default
	if s.auto["def"] == "" && !u.takesOptions() {
		return true
	}
	return false
}

// takesOptions: the unit is given the options of the tag.
func (u *c24unit) takesOptions() bool {
	for _, q := range u.f.Params {
		t := q.Type().Underlying()
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem().Underlying()
		}
		st, ok := t.(*types.Struct)
		for i := 0; ok && i < st.NumFields(); i++ {
			if u.c.defs[st.Field(i).Name()] && st.Field(i).Pkg() == u.c.p.binding.Pkg {
				return true
			}
		}
	}
	return false
}

// defaultFields are the fields that are stored where an option's name is known
// to be "default".
func (p *Program) defaultFields() map[string]bool {
	out := map[string]bool{}
	for _, f := range p.Funcs() {
		if f.Pkg != p.binding {
			continue
		}
		var tops []*ssa.BasicBlock
		for _, b := range f.Blocks {
			i, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
			if !ok {
				continue
			}
			if c, ok := i.Cond.(*ssa.BinOp); ok && (c.Op == token.EQL || c.Op == token.NEQ) {
				for _, x := range []ssa.Value{c.X, c.Y} {
					if k, ok := x.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.String && constant.StringVal(k.Value) == "default" {
						if c.Op == token.EQL {
							tops = append(tops, b.Succs[0])
						} else {
							tops = append(tops, b.Succs[1])
						}
					}
				}
			}
		}
		for _, b := range f.Blocks {
			for _, t := range tops {
				if !t.Dominates(b) {
					continue
				}
				for _, i := range b.Instrs {
					if st, ok := i.(*ssa.Store); ok {
						if fa, ok := st.Addr.(*ssa.FieldAddr); ok {
							out[derefT(fa.X.Type()).Underlying().(*types.Struct).Field(fa.Field).Name()] = true
						}
					}
				}
			}
		}
	}
	if len(out) == 0 {
		out["defaultValue"] = true
	}
	return out
}

// isDefault: the value is an option, not the tag's name.
func (u *c24unit) isDefault(e *Expr) bool {
	e = strip(e)
	return u.it.in.mentions(e, func(x *Expr) bool {
		if x.Op == OpField || x.Op == OpFieldAddr {
			return u.c.defs[x.Name]
		}
		return false
	}) || e.Op == OpSym
}

func (u *c24unit) walkExit(e exit, n *State, okE *Expr) {
	it, r := u.it, u.c.r
	in := it.in
	dash, noName := false, false
	for f, v := range n.facts {
		if x := u.dashFact(n, f, v); x != nil && it.fromTag(x) && !it.in.mentions(x, func(y *Expr) bool {
			// the tag of a field of the value
			return y.Op == OpCall && y.Name == "(reflect.Type).Field"
		}) {
			dash = true
		}
		if x := emptyFact(f, v); x != nil {
			if x = strip(x); x.Op == OpField && x.Name == "Name" || x.Op == OpInit && x.Args[0].Op == OpFieldAddr && x.Args[0].Name == "Name" {
				noName = true
			}
		}
	}
	if dash || noName {
		if n.auto["did"] != "" {
			r.fail("excluded", u.name, e.pos, n, "%s sets a field that is excluded", u.name)
		}
	} else {
		// pointers
		for _, k := range sortedKeys(n.auto) {
			if strings.HasPrefix(k, "new:") && n.auto["ptrset:"+k[4:]] == "" {
				if ok := u.exprs[n.auto["nok:"+k[4:]]]; ok == nil || it.truth(n, ok) != -1 {
					r.fail("pointer", u.name+" dropped", e.pos, n, "%s may drop the pointer although something behind it was set", u.name)
				}
			}
		}
		complete := false
		for _, t := range []*Expr{it.typeOfValue(u.v), in.mk(Expr{Op: OpCall, Name: "(reflect.Type).Elem", Args: []*Expr{it.typeOfValue(u.v)}, Typ: u.c.p.reflectType("Type")})} {
			nf := in.mk(Expr{Op: OpCall, Name: "(reflect.Type).NumField", Args: []*Expr{t}, Typ: typInt})
			complete = complete || it.truth(n, in.lss(n.ghost["f"], nf)) == -1
		}
		for f := range n.facts {
			in.walk(f, func(x *Expr) bool {
				if x.Op == OpCall && x.Name == "(reflect.Type).NumField" && it.truth(n, in.lss(n.ghost["f"], x)) == -1 {
					complete = true
				}
				return !complete
			})
		}
		selfOk := n.auto["selfok"] != "" && it.truth(n, u.exprs[n.auto["selfok"]]) == 1
		switch {
		case n.auto["elem"] != "" || selfOk:
		case u.fields && complete:
			if u.c.self[u.f] && n.auto["selfok"] == "" && !u.embedded(n) {
				r.fail("self", u.name, e.pos, n, "%s may return without having tried to set the value itself", u.name)
			}
		case u.fields && u.kindIs(n, it.typeOfValue(u.v), 25) != -1:
			r.fail("fields", u.name, e.pos, n, "%s may return without having visited every field", u.name)
		case n.auto["did"] == "":
			r.fail("ignored", u.name, e.pos, n, "%s may return nil without having done anything", u.name)
		}
	}
	if n.auto["el"] == "v" && !u.allSet(n) {
		r.fail("element", u.name+" all", e.pos, n, "%s may leave out elements", u.name)
	}
	if okE != nil {
		if n.auto["anybad"] != "" {
			r.fail("reported", u.name+" unknown", e.pos, n, "%s: whether something was set is not known", u.name)
			return
		}
		any := n.ghost["any"]
		if n.auto["src"] != "" || n.auto["el"] == "v" {
			any = in.boolc(true)
		}
		if a, b := it.truth(n, okE), it.truth(n, any); okE != any && (a != b || a == 0) {
			r.fail("reported", u.name, e.pos, n, "%s may report %s although what it set is %s", u.name, okE, any)
		}
	}
}
