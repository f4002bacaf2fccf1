package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// nonNilCalls never return nil.
var nonNilCalls = map[string]bool{
	"errors.New": true, "fmt.Errorf": true, "reflect.TypeOf": false,
}

// purePkgs hold functions without effects whose result depends on the
// arguments only.
var purePkgs = map[string]bool{
	"strings": true, "strconv": true, "path": true, "path/filepath": true, "errors": true, "unicode": true,
	"net/textproto": true, "net/url": true, "html": true, "html/template": true, "unicode/utf8": true, "math": true,
	"regexp": true,
}

var pureFuncs = map[string]bool{
	"fmt.Sprintf": true, "fmt.Errorf": true, "fmt.Sprint": true, "fmt.Sprintln": true,
	"(*net/http.Request).ProtoAtLeast": true, "(*net/http.Request).Cookie": true, "(*net/http.Request).UserAgent": true,
	"(net/http.ResponseWriter).Header": true, "(*regexp.Regexp).FindStringSubmatch": true, "(*regexp.Regexp).NumSubexp": true,
	"net/http.DetectContentType": true, "reflect.ValueOf": true, "reflect.TypeOf": true, "reflect.PtrTo": true, "reflect.PointerTo": true,
	"(reflect.Value).Kind": true, "(reflect.Value).Type": true, "(reflect.Value).Elem": true, "(reflect.Value).Len": true,
	"(reflect.Value).NumField": true, "(reflect.Value).Field": true, "(reflect.Value).Index": true, "(reflect.Value).Interface": true,
	"(reflect.Value).Addr": true, "(reflect.Value).IsNil": true, "(reflect.Value).CanSet": true, "(reflect.Value).IsValid": true,
	"(reflect.Value).Pointer": true, "(reflect.Value).IsZero": true, "(reflect.Value).CanAddr": true, "(reflect.Value).CanInterface": true,
	"(reflect.Type).Elem": true, "(reflect.Type).Kind": true, "(reflect.Type).NumField": true, "(reflect.Type).Field": true,
	"(reflect.Type).Key": true, "(reflect.Type).Bits": true, "(reflect.Type).String": true, "(reflect.Type).Name": true,
	"(reflect.Type).Implements": true, "(reflect.Type).Size": true, "(reflect.Type).Len": true, "(reflect.Type).PkgPath": true,
	"(reflect.StructTag).Get": true, "(reflect.StructTag).Lookup": true, "(reflect.Kind).String": true,
	"(reflect.Value).OverflowInt": true, "(reflect.Value).OverflowUint": true, "(reflect.Value).OverflowFloat": true,
	"(*net/url.URL).Query": true, "(*net/url.URL).String": true, "(net/url.Values).Get": true, "(net/url.Values).Has": true,
	"(*net/http.Cookie).String": true, "net/http.CanonicalHeaderKey": true, "net/http.StatusText": true,
	"(error).Error": true, "(io/fs.FileInfo).IsDir": true, "(io/fs.FileInfo).Mode": true, "(io/fs.FileMode).IsDir": true, "(io/fs.FileMode).IsRegular": true, "(io/fs.FileInfo).Name": true, "(io/fs.FileInfo).Size": true, "(io/fs.FileInfo).ModTime": true,
	"(time.Time).Unix": true, "(time.Time).Sub": true, "(time.Time).Format": true, "time.Unix": true,
	"time.ParseInLocation": true, "time.LoadLocation": true, "time.ParseDuration": true, "time.Parse": true,
	"(github.com/meilihao/water/binding.Bindinger).Name": true, "bytes.NewReader": false,
	"(*reflect.rtype).Elem": true,
}

// noEffect functions do not modify what their arguments reach as far as this
// code base can observe.
func noEffect(name string) bool {
	switch {
	case strings.HasPrefix(name, "fmt."), strings.HasPrefix(name, "github.com/meilihao/logx."),
		strings.HasPrefix(name, "(net/http.Header)."), strings.HasPrefix(name, "(net/http.ResponseWriter)."),
		strings.HasPrefix(name, "(sync.Mutex)"), strings.HasPrefix(name, "(*sync.Mutex)"), strings.HasPrefix(name, "(*sync.RWMutex)"),
		strings.HasPrefix(name, "(*sync.Pool)."), strings.HasPrefix(name, "runtime."), strings.HasPrefix(name, "(*runtime."),
		strings.HasPrefix(name, "time."), strings.HasPrefix(name, "(time."), strings.HasPrefix(name, "bytes.New"),
		strings.HasPrefix(name, "reflect."), strings.HasPrefix(name, "(reflect."),
		strings.HasPrefix(name, "(io.Closer)."), strings.HasPrefix(name, "(net/http.File)."), strings.HasPrefix(name, "(*os.File)."),
		strings.HasPrefix(name, "os."), strings.HasPrefix(name, "(net/http.FileSystem)."), strings.HasPrefix(name, "(mime/multipart.File)."),
		strings.HasPrefix(name, "(*mime/multipart.FileHeader)."), strings.HasPrefix(name, "io.MultiReader"), strings.HasPrefix(name, "io.LimitReader"),
		strings.HasPrefix(name, "io.TeeReader"), strings.HasPrefix(name, "io.NopCloser"), strings.HasPrefix(name, "io/ioutil.NopCloser"),
		strings.HasPrefix(name, "io/ioutil.ReadAll"), strings.HasPrefix(name, "io.ReadAll"),
		strings.HasPrefix(name, "net/http.NotFoundHandler"), strings.HasPrefix(name, "net/http.FileServer"),
		strings.HasPrefix(name, "(io.ReadCloser)."), strings.HasPrefix(name, "(io.Reader)."),
		strings.HasPrefix(name, "(github.com/json-iterator/go.API).New"), strings.HasPrefix(name, "encoding/xml.New"), strings.HasPrefix(name, "encoding/json.New"):
		return true
	}
	return false
}

func pkgOf(name string) string {
	n := strings.TrimPrefix(strings.TrimPrefix(name, "("), "*")
	slash := strings.LastIndex(n, "/")
	dot := strings.Index(n[slash+1:], ".")
	if dot < 0 {
		return ""
	}
	return n[:slash+1+dot]
}

func pure(it *Interp, s *State, ev *CallEv) bool {
	if ev.Cut || ev.Name == "" {
		return false
	}
	if v, ok := pureFuncs[ev.Name]; ok {
		return v
	}
	if ev.Name == "(net/http.Header).Get" || ev.Name == "(net/http.Header).Values" {
		// request headers do not change while a request is served
		return it.in.mentions(ev.Args[0], func(e *Expr) bool {
			return e.Op == OpFieldAddr && e.Name == "Header" && typeKey(derefT(e.Args[0].Typ)) == "net/http.Request"
		})
	}
	if ev.Fn != nil {
		return false
	}
	return purePkgs[pkgOf(ev.Name)]
}

// pureCall folds calls on constants.
func (it *Interp) pureCall(s *State, ev *CallEv, rt types.Type) *Expr {
	in := it.in
	a := func(i int) (string, bool) {
		if i >= len(ev.Args) {
			return "", false
		}
		return ev.Args[i].constStr()
	}
	str := func(v string) *Expr { return in.constOf(constant.MakeString(v), types.Typ[types.String]) }
	x, okx := a(0)
	y, oky := a(1)
	if okx {
		switch ev.Name {
		case "strings.ToLower":
			return str(strings.ToLower(x))
		case "strings.ToUpper":
			return str(strings.ToUpper(x))
		case "strings.TrimSpace":
			return str(strings.TrimSpace(x))
		case "net/textproto.CanonicalMIMEHeaderKey", "net/http.CanonicalHeaderKey":
			return str(canonicalHeader(x))
		}
		if oky {
			switch ev.Name {
			case "strings.HasPrefix":
				return in.boolc(strings.HasPrefix(x, y))
			case "strings.HasSuffix":
				return in.boolc(strings.HasSuffix(x, y))
			case "strings.Contains":
				return in.boolc(strings.Contains(x, y))
			case "strings.Index":
				return in.intc(int64(strings.Index(x, y)))
			case "strings.EqualFold":
				return in.boolc(strings.EqualFold(x, y))
			}
		}
	}
	if ev.Name == "strings.Join" && len(ev.Args) == 2 {
		if l := ev.Args[0]; l.Op == OpList && oky {
			var parts []string
			all := true
			for _, e := range l.Args {
				p, ok := e.constStr()
				all = all && ok
				parts = append(parts, p)
			}
			if all {
				return str(strings.Join(parts, y))
			}
		}
	}
	if oky && (ev.Name == "strings.HasSuffix" || ev.Name == "strings.HasPrefix") {
		// the constant end of a concatenation
		ps := concatParts(ev.Args[0])
		i := len(ps) - 1
		if ev.Name == "strings.HasPrefix" {
			i = 0
		}
		if c, ok := ps[i].constStr(); ok && len(ps) > 1 && len(c) >= len(y) {
			if i > 0 {
				return in.boolc(strings.HasSuffix(c, y))
			}
			return in.boolc(strings.HasPrefix(c, y))
		}
	}
	args := ev.Args
	if ev.Name == "path.Join" || ev.Name == "path/filepath.Join" || strings.HasPrefix(ev.Name, "fmt.") {
		// flatten the variadic list
		var fl []*Expr
		for _, e := range args {
			if e.Op == OpList {
				fl = append(fl, e.Args...)
			} else {
				fl = append(fl, e)
			}
		}
		args = fl
	}
	if r := it.reflectFold(ev, rt); r != nil {
		return r
	}
	r := in.mk(Expr{Op: OpCall, Name: ev.Name, Args: args, Typ: rt})
	switch ev.Name {
	case "strings.Index", "strings.LastIndex", "strings.IndexByte", "strings.IndexRune", "strings.IndexAny":
		// -1 <= r < len(x) (an empty separator is never used with LastIndex at the end)
		s.facts[in.lss(r, in.intc(-1))] = false
		if y != "" || ev.Name == "strings.IndexByte" || ev.Name == "strings.IndexAny" {
			f := in.lss(r, in.lenOf(ev.Args[0]))
			if f.Op == OpBin {
				// only meaningful when found: r < len(x) also holds for -1
				s.facts[f] = true
			}
		}
	case "(*regexp.Regexp).NumSubexp":
		s.facts[in.lss(r, in.intc(0))] = false
	case "strings.Split":
		if y != "" {
			s.facts[in.lss(in.lenOf(r), in.intc(1))] = false
		}
	}
	return r
}

func canonicalHeader(s string) string {
	up := true
	b := []byte(s)
	for i, c := range b {
		if up && 'a' <= c && c <= 'z' {
			c -= 'a' - 'A'
		} else if !up && 'A' <= c && c <= 'Z' {
			c += 'a' - 'A'
		}
		b[i] = c
		up = c == '-'
	}
	return string(b)
}

// effect applies the side effects of an opaque call.
func (it *Interp) effect(s *State, ev *CallEv) {
	tag := it.sitetag(ev.Fr, ev.Instr)
	if ev.Fn == nil {
		if pure(it, s, ev) || noEffect(ev.Name) {
			return
		}
	}
	it.renameEff(s, tag)
	user := ev.Fn == nil
	for _, a := range ev.Args {
		if user && it.p.isCtxPtr(a) {
			it.userEffect(s, a, tag)
			continue
		}
		if it.boxed(s, ev, a, tag) {
			continue
		}
		it.havoc(s, a, tag)
	}
	if ev.Callee != nil {
		if x := strip(ev.Callee); x.Op == OpClosure {
			for _, b := range x.Args {
				it.havoc(s, b, tag)
			}
		}
	}
}

// userEffect applies what code outside the package can do to a context: assign
// exported fields and call exported methods.
func (it *Interp) userEffect(s *State, c *Expr, tag string) {
	st := it.p.role.ctxFields
	mod := it.p.exportedMods()
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		if !f.Exported() && !mod[f.Name()] {
			continue
		}
		a := it.fieldAddr(c, f.Name(), pointerTo(f.Type()))
		v, ok := s.mem[a]
		delete(s.mem, a)
		s.mark(a, tag)
		if ok {
			it.havoc(s, v, tag)
		} else if refType(f.Type()) {
			// the objects the field led to may have changed
			it.havoc(s, it.in.mk(Expr{Op: OpInit, Args: []*Expr{a}, Typ: f.Type()}), tag)
		}
	}
}

// exportedMods lists the context fields exported methods of the context can
// change.
func (p *Program) exportedMods() map[string]bool {
	if p.modCache != nil {
		return p.modCache
	}
	out := map[string]bool{}
	seen := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if f == nil || seen[f] || !p.inModule(f) {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Store:
					if fa, ok := x.Addr.(*ssa.FieldAddr); ok && types.Identical(derefT(fa.X.Type()), p.role.ctx) {
						out[p.role.ctxFields.Field(fa.Field).Name()] = true
					}
				case ssa.CallInstruction:
					visit(x.Common().StaticCallee())
				}
			}
		}
		for _, a := range f.AnonFuncs {
			visit(a)
		}
	}
	for _, f := range p.Funcs() {
		if f.Signature.Recv() != nil && types.Identical(derefT(f.Signature.Recv().Type()), p.role.ctx) && f.Object() != nil && f.Object().Exported() {
			visit(f)
		}
	}
	p.modCache = out
	return out
}

// boxed handles a pointer to a module struct that external code sees through
// an interface only: it can change what the methods of that interface change.
func (it *Interp) boxed(s *State, ev *CallEv, a *Expr, tag string) bool {
	if ev.Fn != nil || ev.Name == "" {
		return false
	}
	x := a
	for x.Op == OpChange {
		x = x.Args[0]
	}
	if x.Op != OpIface {
		return false
	}
	v := x.Args[0]
	pt := derefT(v.Typ)
	if pt == nil {
		return false
	}
	n, ok := pt.(*types.Named)
	if !ok || n.Obj().Pkg() == nil || !it.p.isModulePkg(n.Obj().Pkg()) {
		return false
	}
	iface, ok := x.Typ.Underlying().(*types.Interface)
	if !ok || iface.NumMethods() == 0 {
		return false
	}
	for f := range it.p.modFields(v.Typ, iface) {
		for c := range s.mem {
			if c.Op == OpFieldAddr && c.Args[0] == v && c.Name == f {
				delete(s.mem, c)
			}
		}
		s.mark(it.fieldAddr(v, f, fieldPtrType(pt, f)), tag)
	}
	return true
}

func fieldPtrType(t types.Type, name string) types.Type {
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return pointerTo(st.Field(i).Type())
		}
	}
	return nil
}

// modFields lists the fields of *t the methods of iface may store to.
func (p *Program) modFields(t types.Type, iface *types.Interface) map[string]bool {
	out := map[string]bool{}
	seen := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if f == nil || seen[f] || !p.inModule(f) {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Store:
					if fa, ok := x.Addr.(*ssa.FieldAddr); ok && types.Identical(fa.X.Type(), t) {
						st := derefT(t).Underlying().(*types.Struct)
						out[st.Field(fa.Field).Name()] = true
					}
				case ssa.CallInstruction:
					visit(x.Common().StaticCallee())
				}
			}
		}
		for _, a := range f.AnonFuncs {
			visit(a)
		}
	}
	ms := p.prog.MethodSets.MethodSet(t)
	for i := 0; i < iface.NumMethods(); i++ {
		m := iface.Method(i)
		if sel := ms.Lookup(m.Pkg(), m.Name()); sel != nil {
			visit(p.prog.MethodValue(sel))
		}
	}
	return out
}

// builder models strings.Builder and the writing half of bytes.Buffer: the
// text written so far is kept as a string expression.
func (it *Interp) builder(s *State, ev *CallEv) ([]*Expr, bool) {
	in := it.in
	str := types.Typ[types.String]
	name, buf := ev.Name, (*Expr)(nil)
	var method string
	switch {
	case strings.HasPrefix(name, "(*strings.Builder)."):
		method = name[len("(*strings.Builder)."):]
		buf = ev.Args[0]
	case strings.HasPrefix(name, "fmt.Fprint") || name == "io.WriteString":
		if x := ev.Args[0]; x.Op == OpIface && typeKey(x.Args[0].Typ) == "*strings.Builder" {
			method, buf = name, x.Args[0]
		}
	}
	if buf == nil || buf.isNil() {
		return nil, false
	}
	cell := it.fieldAddr(buf, "[text]", pointerTo(str))
	text := it.load(s, cell, str)
	ok := []*Expr{nil, in.zero(types.Universe.Lookup("error").Type())}
	add := func(v *Expr) []*Expr {
		ok[0] = in.lenOf(v)
		it.store(s, cell, in.bin(token.ADD, text, v, str), "text")
		return ok
	}
	switch method {
	case "WriteString", "io.WriteString":
		return add(ev.Args[1]), true
	case "Write":
		return add(in.mk(Expr{Op: OpConv, Args: []*Expr{ev.Args[1]}, Typ: str})), true
	case "WriteByte", "WriteRune":
		v := in.mk(Expr{Op: OpConv, Args: []*Expr{ev.Args[1]}, Typ: str})
		if k, isC := ev.Args[1].constInt(); isC {
			v = in.constOf(constant.MakeString(string(rune(k))), str)
		}
		if method == "WriteByte" {
			add(v)
			return ok[1:], true
		}
		return add(v), true
	case "fmt.Fprintf", "fmt.Fprint", "fmt.Fprintln":
		v := in.mk(Expr{Op: OpCall, Name: "fmt.Spr" + method[len("fmt.Fpr"):], Args: flatArgs(it, s, ev.Args[1:]), Typ: str})
		return add(v), true
	case "String":
		return []*Expr{text}, true
	case "Len":
		return []*Expr{in.lenOf(text)}, true
	case "Reset":
		it.store(s, cell, in.zero(str), "text")
		return nil, true
	case "Grow":
		return nil, true
	}
	return nil, false
}

// flatArgs replaces a trailing list of known elements by the elements.
func flatArgs(it *Interp, s *State, args []*Expr) []*Expr {
	var out []*Expr
	for _, a := range args {
		if a = it.snapshot(s, a); a.Op == OpList {
			out = append(out, a.Args...)
		} else {
			out = append(out, a)
		}
	}
	return out
}
