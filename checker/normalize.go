package main

// Functions the tree did not have when the rules were written, and that are
// only ever called, are written out at their calls before the analysis starts.
// The rules then judge the statements where they run, whichever function they
// have been moved to. The rewritten sources are kept in memory only.

import (
	_ "embed"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
)

//go:embed functions.txt
var knownFunctions string

// declKey names a declared function independently of where it is.
func declKey(pkg *packages.Package, fd *ast.FuncDecl) string {
	recv := ""
	if fd.Recv != nil && len(fd.Recv.List) == 1 {
		t := fd.Recv.List[0].Type
		for {
			switch x := t.(type) {
			case *ast.StarExpr:
				t = x.X
				continue
			case *ast.ParenExpr:
				t = x.X
				continue
			case *ast.IndexExpr:
				t = x.X
				continue
			}
			break
		}
		if id, ok := t.(*ast.Ident); ok {
			recv = id.Name
		}
	}
	return pkg.Name + "." + recv + "." + fd.Name.Name
}

// declaredFunctions are the names of the functions of the packages, in files
// of every build configuration.
func declaredFunctions(pkgs []*packages.Package) map[string]bool {
	r := map[string]bool{}
	for _, p := range pkgs {
		if len(p.GoFiles) == 0 {
			continue
		}
		fs, _ := filepath.Glob(filepath.Join(filepath.Dir(p.GoFiles[0]), "*.go"))
		for _, f := range fs {
			if strings.HasSuffix(f, "_test.go") {
				continue
			}
			if af, err := parser.ParseFile(token.NewFileSet(), f, nil, 0); err == nil {
				for _, d := range af.Decls {
					if fd, ok := d.(*ast.FuncDecl); ok {
						r[declKey(p, fd)] = true
					}
				}
			}
		}
	}
	return r
}

type inlineEdit struct {
	a, b int
	s    string
}

type helperFn struct {
	obj    *types.Func
	decl   *ast.FuncDecl
	file   *ast.File
	src    []byte
	name   string // file name
	refs   int
	calls  map[*types.Func]bool
	expr   ast.Expr // the body is return expr
	nRet   int      // returns of the body
	last   bool     // the only return is the last statement
	hasDef bool
	hasLit bool
	named  bool
	params []*types.Var // receiver first
	locals []*ast.Ident
	outer  map[types.Object][]*ast.Ident // what it refers to outside
	taken  map[types.Object]bool       // assigned or address taken
	uses   map[types.Object]int
}

type inliner struct {
	pkg     *packages.Package
	info    *types.Info
	fset    *token.FileSet
	helpers map[types.Object]*helperFn
	n       *int
	src     map[*ast.File][]byte
	edits   map[*ast.File][]inlineEdit
	imports map[*ast.File]map[string]string // path -> name to add
}

// expandHelpers returns the overlay of the next round, nil when there is
// nothing left to do.
func expandHelpers(pkgs []*packages.Package, overlay map[string][]byte, n *int) map[string][]byte {
	known := map[string]bool{}
	for _, l := range strings.Fields(knownFunctions) {
		known[l] = true
	}
	for _, l := range strings.Split(os.Getenv("WATERCHECK_INLINE"), ",") {
		delete(known, l) // for trying out other shapes of the tree
	}
	if *n == 0 {
		have := declaredFunctions(pkgs)
		for k := range known {
			if !have[k] {
				return nil // functions were renamed: what is new is not known
			}
		}
	}
	out := map[string][]byte{}
	for k, v := range overlay {
		out[k] = v
	}
	changed := false
	for _, p := range pkgs {
		in := &inliner{pkg: p, info: p.TypesInfo, fset: p.Fset, n: n, helpers: map[types.Object]*helperFn{}, src: map[*ast.File][]byte{}, edits: map[*ast.File][]inlineEdit{}, imports: map[*ast.File]map[string]string{}}
		files := map[*ast.File]string{}
		for i, f := range p.Syntax {
			fn := p.CompiledGoFiles[i]
			files[f] = fn
			if b, ok := overlay[fn]; ok {
				in.src[f] = b
			} else if b, err := os.ReadFile(fn); err == nil {
				in.src[f] = b
			} else {
				return nil
			}
		}
		for _, f := range p.Syntax {
			for _, d := range f.Decls {
				if fd, ok := d.(*ast.FuncDecl); ok && !known[declKey(p, fd)] {
					in.helper(f, files[f], fd)
				}
			}
		}
		if len(in.helpers) == 0 {
			continue
		}
		in.references()
		for _, f := range p.Syntax {
			in.file(f)
		}
		for f, es := range in.edits {
			if len(es) == 0 {
				continue
			}
			changed = true
			out[files[f]] = in.fixImports(f, applyEdits(in.src[f], 0, len(in.src[f]), es))
		}
	}
	if !changed {
		return nil
	}
	return out
}

func applyEdits(src []byte, a, b int, es []inlineEdit) []byte {
	sort.SliceStable(es, func(i, j int) bool {
		if es[i].a != es[j].a {
			return es[i].a < es[j].a
		}
		return es[i].b < es[j].b
	})
	var out []byte
	q := a
	for _, e := range es {
		if e.a < q || e.b > b {
			continue
		}
		out = append(out, src[q:e.a]...)
		out = append(out, e.s...)
		q = e.b
	}
	return append(out, src[q:b]...)
}

func (in *inliner) off(p token.Pos) int { return in.fset.PositionFor(p, false).Offset }

func (in *inliner) helper(f *ast.File, name string, fd *ast.FuncDecl) {
	if fd.Body == nil || fd.Name.IsExported() || fd.Name.Name == "_" || fd.Name.Name == "init" || fd.Name.Name == "main" || fd.Type.TypeParams != nil {
		return
	}
	obj, _ := in.info.Defs[fd.Name].(*types.Func)
	if obj == nil {
		return
	}
	sig := obj.Type().(*types.Signature)
	if sig.RecvTypeParams() != nil {
		return
	}
	h := &helperFn{obj: obj, decl: fd, file: f, src: in.src[f], name: name, calls: map[*types.Func]bool{}, outer: map[types.Object][]*ast.Ident{}, taken: map[types.Object]bool{}, uses: map[types.Object]int{}}
	if r := sig.Recv(); r != nil {
		h.params = append(h.params, r)
		// a method an interface may ask for stays a method
		for _, o := range in.info.Defs {
			if tn, ok := o.(*types.TypeName); ok {
				if it, ok := tn.Type().Underlying().(*types.Interface); ok {
					for i := 0; i < it.NumMethods(); i++ {
						if it.Method(i).Name() == fd.Name.Name {
							return
						}
					}
				}
			}
		}
	}
	for i := 0; i < sig.Params().Len(); i++ {
		h.params = append(h.params, sig.Params().At(i))
	}
	ok := true
	inside := func(o types.Object) bool { return o.Pos() >= fd.Pos() && o.Pos() < fd.End() }
	look := func(id *ast.Ident) {
		if o, is := in.info.Defs[id]; is {
			if o == nil || inside(o) {
				if id != fd.Name {
					if v, isv := o.(*types.Var); !isv || !v.IsField() {
						h.locals = append(h.locals, id)
					}
				}
			}
			return
		}
		o := in.info.Uses[id]
		if o == nil {
			return
		}
		if v, isv := o.(*types.Var); isv && v.IsField() {
			return
		}
		h.uses[o]++
		if fn, isf := o.(*types.Func); isf && fn.Type().(*types.Signature).Recv() != nil {
			return
		}
		if o.Parent() == types.Universe || o.Parent() == in.pkg.Types.Scope() || !inside(o) {
			if _, isp := o.(*types.PkgName); isp || o.Parent() == types.Universe || o.Parent() == in.pkg.Types.Scope() {
				h.outer[o] = append(h.outer[o], id)
			}
			return
		}
		h.locals = append(h.locals, id)
	}
	root := func(x ast.Expr) types.Object {
		for {
			switch y := x.(type) {
			case *ast.ParenExpr:
				x = y.X
			case *ast.SelectorExpr:
				x = y.X
			case *ast.IndexExpr:
				x = y.X
			case *ast.Ident:
				return in.info.ObjectOf(y)
			default:
				return nil
			}
		}
	}
	ast.Inspect(fd, func(y ast.Node) bool {
		switch y := y.(type) {
		case *ast.Ident:
			look(y)
		case *ast.AssignStmt:
			for _, l := range y.Lhs {
				if o := root(l); o != nil {
					h.taken[o] = true
				}
			}
		case *ast.IncDecStmt:
			if o := root(y.X); o != nil {
				h.taken[o] = true
			}
		case *ast.UnaryExpr:
			if y.Op == token.AND {
				if o := root(y.X); o != nil {
					h.taken[o] = true
				}
			}
		case *ast.FuncLit:
			h.hasLit = true
		case *ast.CallExpr:
			if id, k := y.Fun.(*ast.Ident); k && id.Name == "recover" {
				ok = false
			}
		}
		return true
	})
	var rets func(x ast.Node)
	rets = func(x ast.Node) {
		ast.Inspect(x, func(y ast.Node) bool {
			switch y.(type) {
			case *ast.FuncLit:
				return false
			case *ast.ReturnStmt:
				h.nRet++
			case *ast.DeferStmt:
				h.hasDef = true
			}
			return true
		})
	}
	rets(fd.Body)
	h.named = fd.Type.Results != nil && len(fd.Type.Results.List) > 0 && len(fd.Type.Results.List[0].Names) > 0
	if k := len(fd.Body.List); k > 0 {
		r, isr := fd.Body.List[k-1].(*ast.ReturnStmt)
		h.last = isr && h.nRet == 1
		if isr && k == 1 && len(r.Results) == 1 && sig.Results().Len() == 1 && !h.named {
			h.expr = r.Results[0]
		}
	}
	if h.named && h.hasDef || !ok {
		return
	}
	in.helpers[obj] = h
}

func (in *inliner) references() {
	for _, f := range in.pkg.Syntax {
		for _, d := range f.Decls {
			var self *types.Func
			if fd, ok := d.(*ast.FuncDecl); ok {
				self, _ = in.info.Defs[fd.Name].(*types.Func)
			}
			ast.Inspect(d, func(y ast.Node) bool {
				if id, ok := y.(*ast.Ident); ok {
					if g := in.helpers[in.info.Uses[id]]; g != nil {
						if self != g.obj {
							g.refs++
						}
						if h := in.helpers[self]; h != nil && self != nil {
							h.calls[g.obj] = true
						}
					}
				}
				return true
			})
		}
	}
	// a function that may call itself stays
	var drop []*types.Func
	for o, h := range in.helpers {
		seen := map[*types.Func]bool{}
		var walk func(g *helperFn) bool
		walk = func(g *helperFn) bool {
			for c := range g.calls {
				if c == h.obj {
					return true
				}
				if k := in.helpers[c]; k != nil && !seen[c] {
					seen[c] = true
					if walk(k) {
						return true
					}
				}
			}
			return false
		}
		if walk(h) {
			drop = append(drop, o.(*types.Func))
		}
	}
	for _, o := range drop {
		delete(in.helpers, o)
	}
}

func (in *inliner) add(f *ast.File, a, b int, s string) {
	in.edits[f] = append(in.edits[f], inlineEdit{a, b, s})
}

func (in *inliner) file(f *ast.File) {
	for _, d := range f.Decls {
		fd, isf := d.(*ast.FuncDecl)
		if isf {
			if h := in.helpers[in.info.Defs[fd.Name]]; h != nil && h.refs == 0 {
				a := in.off(fd.Pos())
				if fd.Doc != nil {
					a = in.off(fd.Doc.Pos())
				}
				in.add(f, a, in.off(fd.End()), "")
				continue
			}
		}
		w := &inlineWalk{in: in, f: f}
		if isf {
			if fd.Body != nil {
				w.funcBody(fd.Body, in.info.Defs[fd.Name].Type().(*types.Signature))
			}
			w.exprs(fd)
		} else {
			ast.Inspect(d, func(y ast.Node) bool {
				if l, ok := y.(*ast.FuncLit); ok {
					w.funcBody(l.Body, in.info.TypeOf(l).(*types.Signature))
					return false
				}
				return true
			})
			w.exprs(d)
		}
	}
}

type inlineWalk struct {
	in   *inliner
	f    *ast.File
	sig  *types.Signature
	body *ast.BlockStmt
	busy []inlineEdit // ranges already rewritten in this round
}

func (w *inlineWalk) free(a, b token.Pos) bool {
	x, y := w.in.off(a), w.in.off(b)
	for _, e := range w.busy {
		if x < e.b && e.a < y {
			return false
		}
	}
	return true
}

func (w *inlineWalk) mark(a, b token.Pos) {
	w.busy = append(w.busy, inlineEdit{a: w.in.off(a), b: w.in.off(b)})
}

// call is the helper a call is of, with the arguments including the receiver.
func (w *inlineWalk) call(x ast.Expr) (*helperFn, *ast.CallExpr, []ast.Expr) {
	for {
		p, ok := x.(*ast.ParenExpr)
		if !ok {
			break
		}
		x = p.X
	}
	c, ok := x.(*ast.CallExpr)
	if !ok {
		return nil, nil, nil
	}
	var h *helperFn
	var args []ast.Expr
	switch fn := c.Fun.(type) {
	case *ast.Ident:
		h = w.in.helpers[w.in.info.Uses[fn]]
	case *ast.SelectorExpr:
		if s := w.in.info.Selections[fn]; s != nil && s.Kind() == types.MethodVal && len(s.Index()) == 1 {
			h = w.in.helpers[s.Obj()]
			args = append(args, fn.X)
		}
	}
	if h == nil {
		return nil, nil, nil
	}
	args = append(args, c.Args...)
	sig := h.obj.Type().(*types.Signature)
	np := len(h.params)
	if sig.Variadic() {
		if c.Ellipsis.IsValid() && len(args) != np || len(args) < np-1 {
			return nil, nil, nil
		}
	} else if len(args) != np {
		return nil, nil, nil
	}
	for _, a := range args {
		if _, tuple := w.in.info.TypeOf(a).(*types.Tuple); tuple {
			return nil, nil, nil
		}
	}
	if !w.visible(h, c, args) {
		return nil, nil, nil
	}
	return h, c, args
}

// plain: the argument has the very type of the parameter.
func (w *inlineWalk) plain(h *helperFn, c *ast.CallExpr, args []ast.Expr, i int) bool {
	if i >= len(args) || h.obj.Type().(*types.Signature).Variadic() && i == len(h.params)-1 && !c.Ellipsis.IsValid() {
		return false
	}
	tv := w.in.info.Types[args[i]]
	return tv.Value == nil && !tv.IsNil() && types.Identical(tv.Type, h.params[i].Type())
}

// visible: what the helper refers to means the same at the call.
func (w *inlineWalk) visible(h *helperFn, c *ast.CallExpr, args []ast.Expr) bool {
	pos := c.Pos()
	sc := w.in.pkg.Types.Scope().Innermost(pos)
	if sc == nil {
		return false
	}
	_, ts := h.paramList()
	for o, ids := range h.outer {
		need := false
		for _, id := range ids {
			n := true
			for i, t := range ts {
				if id.Pos() >= t.Pos() && id.Pos() < t.End() && w.plain(h, c, args, i) {
					n = false
				}
			}
			need = need || n
		}
		if !need {
			continue
		}
		name := ids[0].Name
		_, g := sc.LookupParent(name, pos)
		if g == o {
			continue
		}
		pn, isp := o.(*types.PkgName)
		if !isp {
			return false
		}
		if g == nil {
			if w.in.imports[w.f] == nil {
				w.in.imports[w.f] = map[string]string{}
			}
			w.in.imports[w.f][pn.Imported().Path()] = name
			continue
		}
		if q, ok := g.(*types.PkgName); !ok || q.Imported() != pn.Imported() {
			return false
		}
	}
	return true
}

func (w *inlineWalk) text(f *ast.File, a, b token.Pos) string {
	return string(w.in.src[f][w.in.off(a):w.in.off(b)])
}

func (h *helperFn) typeText(in *inliner, t ast.Expr) string {
	if e, ok := t.(*ast.Ellipsis); ok {
		return "[]" + string(h.src[in.off(e.Elt.Pos()):in.off(e.Elt.End())])
	}
	return string(h.src[in.off(t.Pos()):in.off(t.End())])
}

// paramIdents are the parameters in order: name (nil if none) and type.
func (h *helperFn) paramList() (ids []*ast.Ident, ts []ast.Expr) {
	add := func(l *ast.FieldList) {
		if l == nil {
			return
		}
		for _, g := range l.List {
			if len(g.Names) == 0 {
				ids, ts = append(ids, nil), append(ts, g.Type)
			}
			for _, n := range g.Names {
				ids, ts = append(ids, n), append(ts, g.Type)
			}
		}
	}
	add(h.decl.Recv)
	add(h.decl.Type.Params)
	return
}

func (h *helperFn) resultTypes() (ids []*ast.Ident, ts []ast.Expr) {
	if h.decl.Type.Results == nil {
		return
	}
	for _, g := range h.decl.Type.Results.List {
		if len(g.Names) == 0 {
			ids, ts = append(ids, nil), append(ts, g.Type)
		}
		for _, n := range g.Names {
			ids, ts = append(ids, n), append(ts, g.Type)
		}
	}
	return
}

// argText is the argument as the parameter sees it.
func (w *inlineWalk) argTexts(h *helperFn, c *ast.CallExpr, args []ast.Expr, conv bool) []string {
	sig := h.obj.Type().(*types.Signature)
	_, ts := h.paramList()
	var out []string
	for i := range h.params {
		tt := h.typeText(w.in, ts[i])
		if sig.Variadic() && i == len(h.params)-1 && !c.Ellipsis.IsValid() {
			if len(args) <= i {
				out = append(out, "("+tt+")(nil)")
				continue
			}
			var l []string
			for _, a := range args[i:] {
				l = append(l, w.text(w.f, a.Pos(), a.End()))
			}
			out = append(out, tt+"{"+strings.Join(l, ", ")+"}")
			continue
		}
		s := w.text(w.f, args[i].Pos(), args[i].End())
		at, pt := w.in.info.TypeOf(args[i]), h.params[i].Type()
		if i == 0 && sig.Recv() != nil {
			_, ap := at.Underlying().(*types.Pointer)
			_, pp := pt.Underlying().(*types.Pointer)
			if pp && !ap {
				out = append(out, "(&"+s+")")
				continue
			}
			if !pp && ap {
				out = append(out, "(*"+s+")")
				continue
			}
		}
		tv := w.in.info.Types[args[i]]
		if conv && (!types.Identical(at, pt) || tv.IsNil()) {
			s = "(" + tt + ")(" + s + ")"
		} else if _, id := args[i].(*ast.Ident); conv && !id {
			s = "(" + s + ")"
		}
		out = append(out, s)
	}
	return out
}

func (w *inlineWalk) simple(x ast.Expr) bool {
	switch y := x.(type) {
	case *ast.Ident, *ast.BasicLit:
		return true
	case *ast.ParenExpr:
		return w.simple(y.X)
	case *ast.SelectorExpr:
		return w.simple(y.X)
	case *ast.StarExpr:
		return w.simple(y.X)
	}
	return w.in.info.Types[x].Value != nil
}

func pureExpr(info *types.Info, x ast.Node) bool {
	ok := true
	ast.Inspect(x, func(y ast.Node) bool {
		switch y := y.(type) {
		case *ast.CallExpr:
			if tv := info.Types[y.Fun]; !tv.IsType() && !tv.IsBuiltin() {
				ok = false
			}
		case *ast.FuncLit:
			ok = false
		case *ast.UnaryExpr:
			if y.Op == token.ARROW {
				ok = false
			}
		}
		return ok
	})
	return ok
}

// exprs writes calls of one-expression helpers out where they stand.
func (w *inlineWalk) exprs(d ast.Node) {
	in := w.in
	skip := map[ast.Expr]bool{}
	ast.Inspect(d, func(y ast.Node) bool {
		switch s := y.(type) {
		case *ast.DeferStmt:
			skip[s.Call] = true
		case *ast.GoStmt:
			skip[s.Call] = true
		case *ast.ExprStmt:
			skip[s.X] = true
		}
		x, ok := y.(ast.Expr)
		if !ok || skip[x] {
			return true
		}
		if _, p := x.(*ast.ParenExpr); p {
			return true
		}
		h, c, args := w.call(x)
		if h == nil || !w.substitutable(h, c, args) || !w.free(c.Pos(), c.End()) {
			return true
		}
		w.mark(c.Pos(), c.End())
		*in.n++
		ts := w.argTexts(h, c, args, true)
		es := []inlineEdit{}
		for _, id := range h.locals {
			for i, p := range h.params {
				if in.info.Uses[id] == p {
					es = append(es, inlineEdit{in.off(id.Pos()), in.off(id.End()), ts[i]})
				}
			}
		}
		s := string(applyEdits(h.src, in.off(h.expr.Pos()), in.off(h.expr.End()), es))
		rt := h.obj.Type().(*types.Signature).Results().At(0).Type()
		et := in.info.TypeOf(h.expr)
		ub, isb := et.(*types.Basic)
		bool0 := isb && ub.Kind() == types.UntypedBool && in.info.Types[h.expr].Value == nil
		if bool0 {
			rb, k := rt.(*types.Basic)
			bool0 = k && rb.Kind() == types.Bool
		}
		_, rts := h.resultTypes()
		if !bool0 && (!types.Identical(et, rt) || in.info.Types[h.expr].IsNil()) {
			s = "(" + h.typeText(in, rts[0]) + ")(" + s + ")"
		} else {
			s = "(" + s + ")"
		}
		in.add(w.f, in.off(c.Pos()), in.off(c.End()), w.there(h.expr.Pos())+s+w.there(c.End()))
		return false
	})
}

func (w *inlineWalk) substitutable(h *helperFn, c *ast.CallExpr, args []ast.Expr) bool {
	if h.expr == nil || h.hasLit {
		return false
	}
	for i, p := range h.params {
		if h.taken[p] {
			return false
		}
		if i >= len(args) {
			continue
		}
		if i == 0 && h.decl.Recv != nil {
			// implicit address or value
			_, ap := w.in.info.TypeOf(args[0]).Underlying().(*types.Pointer)
			_, pp := p.Type().Underlying().(*types.Pointer)
			if ap != pp && !w.simple(args[0]) {
				return false
			}
		}
		if w.simple(args[i]) {
			continue
		}
		if n := h.uses[p]; n > 1 || !pureExpr(w.in.info, args[i]) && (n != 1 || len(args) != 1 || !w.first(h, p)) {
			return false
		}
	}
	return true
}

// first: the only use of the parameter comes before anything else is called,
// on every evaluation.
func (w *inlineWalk) first(h *helperFn, p *types.Var) bool {
	ok, done := true, false
	var walk func(x ast.Node) bool
	walk = func(x ast.Node) bool {
		ast.Inspect(x, func(y ast.Node) bool {
			if done || !ok {
				return false
			}
			switch y := y.(type) {
			case *ast.BinaryExpr:
				if y.Op == token.LAND || y.Op == token.LOR {
					walk(y.X)
					if !done {
						ok = false
					}
					return false
				}
			case *ast.CallExpr:
				if tv := w.in.info.Types[y.Fun]; !tv.IsType() && !tv.IsBuiltin() {
					walk(y.Fun)
					for _, a := range y.Args {
						walk(a)
					}
					if !done {
						ok = false
					}
					return false
				}
			case *ast.Ident:
				if w.in.info.Uses[y] == p {
					done = true
				}
			}
			return true
		})
		return ok
	}
	walk(h.expr)
	return ok && done
}

func (w *inlineWalk) there(p token.Pos) string {
	q := w.in.fset.Position(p)
	return fmt.Sprintf("/*line %s:%d:%d*/", filepath.Base(q.Filename), q.Line, q.Column)
}

func (w *inlineWalk) funcBody(b *ast.BlockStmt, sig *types.Signature) {
	os, ob := w.sig, w.body
	w.sig, w.body = sig, b
	w.list(b.List)
	w.sig, w.body = os, ob
}

func (w *inlineWalk) list(l []ast.Stmt) {
	for _, s := range l {
		w.stmt(s)
	}
}

func (w *inlineWalk) lits(x ast.Node) {
	if x == nil {
		return
	}
	ast.Inspect(x, func(y ast.Node) bool {
		if l, ok := y.(*ast.FuncLit); ok {
			if w.free(l.Pos(), l.End()) {
				w.funcBody(l.Body, w.in.info.TypeOf(l).(*types.Signature))
			}
			return false
		}
		return true
	})
}

func (w *inlineWalk) lastStmt(s ast.Stmt) bool {
	k := len(w.body.List)
	return k > 0 && w.body.List[k-1] == s
}

func (w *inlineWalk) stmt(s ast.Stmt) {
	switch x := s.(type) {
	case *ast.BlockStmt:
		w.list(x.List)
	case *ast.LabeledStmt:
		w.inner(x.Stmt)
	case *ast.ReturnStmt:
		if len(x.Results) == 1 {
			if h, c, args := w.call(x.Results[0]); h != nil && !w.substitutable(h, c, args) && w.tail(h, s) {
				w.emit(s, h, c, args, "tail", nil)
				return
			}
		}
		if !w.hoist(s, s.Pos(), s.End(), exprList(x.Results), false) {
			w.lits(s)
		}
	case *ast.ExprStmt:
		if h, c, args := w.call(x.X); h != nil {
			if w.lastStmt(s) && w.sig.Results().Len() == 0 && h.obj.Type().(*types.Signature).Results().Len() == 0 {
				w.emit(s, h, c, args, "tail", nil)
				return
			}
			if !h.hasDef {
				w.emit(s, h, c, args, "stmt", nil)
				return
			}
		}
		if !w.hoist(s, s.Pos(), s.End(), []ast.Node{x.X}, false) {
			w.lits(s)
		}
	case *ast.AssignStmt:
		if len(x.Rhs) == 1 && (x.Tok == token.ASSIGN || x.Tok == token.DEFINE) {
			if h, c, args := w.call(x.Rhs[0]); h != nil && !h.hasDef && !w.substitutable(h, c, args) {
				w.emit(s, h, c, args, "assign", x)
				return
			}
		}
		var l []ast.Node
		l = append(l, exprList(x.Lhs)...)
		l = append(l, exprList(x.Rhs)...)
		if !w.hoist(s, s.Pos(), s.End(), l, false) {
			w.lits(s)
		}
	case *ast.DeclStmt, *ast.SendStmt, *ast.IncDecStmt:
		var l []ast.Node
		if d, ok := s.(*ast.DeclStmt); ok {
			if g, ok := d.Decl.(*ast.GenDecl); ok && g.Tok == token.VAR && len(g.Specs) == 1 {
				l = exprList(g.Specs[0].(*ast.ValueSpec).Values)
			}
		} else {
			l = []ast.Node{s}
		}
		if !w.hoist(s, s.Pos(), s.End(), l, false) {
			w.lits(s)
		}
	case *ast.DeferStmt:
		if h, _, _ := w.call(x.Call); h == nil {
			if w.hoist(s, s.Pos(), s.End(), append([]ast.Node{x.Call.Fun}, exprList(x.Call.Args)...), false) {
				return
			}
		}
		w.lits(s)
	case *ast.GoStmt:
		w.lits(s)
	case *ast.IfStmt:
		w.ifs(x, false)
	case *ast.SwitchStmt:
		if x.Tag != nil {
			if x.Init != nil {
				if w.has(x.Init) || w.hoistable([]ast.Node{x.Tag}) != nil {
					w.unInit(s, x.Init)
				}
			} else {
				w.hoist(s, x.Pos(), x.Tag.End(), []ast.Node{x.Tag}, false)
			}
		} else if x.Init != nil && w.has(x.Init) {
			w.unInit(s, x.Init)
		}
		w.inner(s)
	case *ast.TypeSwitchStmt:
		if x.Init == nil {
			w.hoist(s, x.Pos(), x.Assign.End(), []ast.Node{x.Assign}, false)
		} else if w.has(x.Init) {
			w.unInit(s, x.Init)
		}
		w.inner(s)
	case *ast.RangeStmt:
		w.hoist(s, x.X.Pos(), x.X.End(), []ast.Node{x.X}, false)
		w.inner(s)
	default:
		w.inner(s)
	}
}

// inner looks at the bodies of a statement.
func (w *inlineWalk) inner(s ast.Stmt) {
	switch x := s.(type) {
	case *ast.BlockStmt:
		w.list(x.List)
	case *ast.IfStmt:
		w.ifs(x, true)
	case *ast.ForStmt:
		if x.Init != nil {
			w.lits(x.Init)
		}
		w.list(x.Body.List)
	case *ast.RangeStmt:
		w.list(x.Body.List)
	case *ast.SwitchStmt:
		w.list(x.Body.List)
	case *ast.TypeSwitchStmt:
		w.list(x.Body.List)
	case *ast.SelectStmt:
		w.list(x.Body.List)
	case *ast.CaseClause:
		w.list(x.Body)
	case *ast.CommClause:
		w.list(x.Body)
	default:
		w.lits(s)
	}
}

func (w *inlineWalk) has(x ast.Node) bool {
	r := false
	ast.Inspect(x, func(y ast.Node) bool {
		if e, ok := y.(ast.Expr); ok && !r {
			h, _, _ := w.call(e)
			r = h != nil
		}
		return !r
	})
	return r
}

func (w *inlineWalk) ifs(x *ast.IfStmt, noHead bool) {
	if !noHead {
		if x.Init != nil {
			if w.has(x.Init) || w.hoistable([]ast.Node{x.Cond}) != nil {
				w.unInit(x, x.Init)
			}
		} else {
			w.hoist(x, x.Pos(), x.Cond.End(), []ast.Node{x.Cond}, false)
		}
	}
	w.list(x.Body.List)
	switch e := x.Else.(type) {
	case *ast.BlockStmt:
		w.list(e.List)
	case *ast.IfStmt:
		in := w.in
		if e.Init == nil && w.hoistable([]ast.Node{e.Cond}) != nil || e.Init != nil && (w.has(e.Init) || w.hoistable([]ast.Node{e.Cond}) != nil) {
			// else if is made else { if }
			in.add(w.f, in.off(e.Pos()), in.off(e.Pos()), "{ ")
			in.add(w.f, in.off(e.End()), in.off(e.End()), " }")
			*in.n++
			w.ifs(e, true)
			return
		}
		w.ifs(e, true)
	}
}

// unInit moves the initialisation in front of the statement.
func (w *inlineWalk) unInit(s ast.Stmt, init ast.Stmt) {
	in := w.in
	if !w.free(s.Pos(), init.End()) {
		return
	}
	w.mark(s.Pos(), init.End())
	*in.n++
	kw := "if"
	switch s.(type) {
	case *ast.SwitchStmt, *ast.TypeSwitchStmt:
		kw = "switch"
	}
	end := in.off(init.End())
	for end < len(in.src[w.f]) && in.src[w.f][end] != ';' && in.src[w.f][end] != '\n' {
		end++
	}
	in.add(w.f, in.off(s.Pos()), end+1, "{ "+w.text(w.f, init.Pos(), init.End())+"; "+kw+" ")
	in.add(w.f, in.off(s.End()), in.off(s.End()), " }")
}

func exprList(l []ast.Expr) []ast.Node {
	var r []ast.Node
	for _, x := range l {
		r = append(r, x)
	}
	return r
}

// hoistable is the call of a helper that is evaluated before anything else
// the expressions call.
func (w *inlineWalk) hoistable(l []ast.Node) *ast.CallExpr {
	var found *ast.CallExpr
	stop := false
	var walk func(x ast.Node)
	walk = func(x ast.Node) {
		ast.Inspect(x, func(y ast.Node) bool {
			if stop || found != nil || y == nil {
				return false
			}
			switch y := y.(type) {
			case *ast.FuncLit:
				return false
			case *ast.BinaryExpr:
				if y.Op == token.LAND || y.Op == token.LOR {
					walk(y.X)
					if found == nil && (w.has(y.Y) || !pureExpr(w.in.info, y.Y)) {
						stop = true
					}
					return false
				}
			case *ast.UnaryExpr:
				if y.Op == token.ARROW {
					stop = true
				}
			case *ast.CallExpr:
				if tv := w.in.info.Types[y.Fun]; tv.IsType() || tv.IsBuiltin() {
					return true
				}
				h, c, args := w.call(y)
				walk(y.Fun)
				for _, a := range y.Args {
					walk(a)
				}
				if stop || found != nil {
					return false
				}
				if h != nil && !h.hasDef && h.obj.Type().(*types.Signature).Results().Len() == 1 && !w.substitutable(h, c, args) {
					found = c
				} else {
					stop = true
				}
				return false
			}
			return true
		})
	}
	for _, x := range l {
		if x != nil {
			walk(x)
		}
	}
	return found
}

func (w *inlineWalk) hoist(s ast.Stmt, a, b token.Pos, l []ast.Node, _ bool) bool {
	c := w.hoistable(l)
	if c == nil || !w.free(a, b) {
		return false
	}
	h, c, args := w.call(c)
	in := w.in
	w.mark(a, b)
	*in.n++
	r := fmt.Sprintf("res_x%d", *in.n)
	_, rts := h.resultTypes()
	pre := "var " + r + " " + h.typeText(in, rts[0]) + "; " + w.render(h, c, args, "assign", []string{r}) + w.there(s.Pos())
	in.add(w.f, in.off(s.Pos()), in.off(s.Pos()), pre)
	in.add(w.f, in.off(c.Pos()), in.off(c.End()), r)
	return true
}

// tail: the results of the call are those of the function.
func (w *inlineWalk) tail(h *helperFn, s ast.Stmt) bool {
	if h.hasDef && !w.lastStmt(s) {
		return false
	}
	r := h.obj.Type().(*types.Signature).Results()
	if r.Len() != w.sig.Results().Len() {
		return false
	}
	for i := 0; i < r.Len(); i++ {
		if !types.Identical(r.At(i).Type(), w.sig.Results().At(i).Type()) {
			return false
		}
	}
	return true
}

func (w *inlineWalk) emit(s ast.Stmt, h *helperFn, c *ast.CallExpr, args []ast.Expr, mode string, as *ast.AssignStmt) {
	in := w.in
	if !w.free(s.Pos(), s.End()) {
		return
	}
	w.mark(s.Pos(), s.End())
	*in.n++
	var into []string
	pre, post := "", ""
	_, rts := h.resultTypes()
	if mode == "stmt" && len(rts) > 0 {
		mode = "assign"
		for i, t := range rts {
			r := fmt.Sprintf("res_x%d_%d", *in.n, i)
			into = append(into, r)
			pre += "var " + r + " " + h.typeText(in, t) + "; "
			post += "; _ = " + r
		}
	} else if mode == "assign" {
		if len(as.Lhs) != len(rts) {
			return
		}
		var l, r []string
		rs := h.obj.Type().(*types.Signature).Results()
		for i, x := range as.Lhs {
			id, isid := x.(*ast.Ident)
			if isid && id.Name != "_" {
				if o := in.info.Defs[id]; o != nil {
					pre += "var " + id.Name + " " + h.typeText(in, rts[i]) + "; "
					into = append(into, id.Name)
					continue
				}
				if o := in.info.Uses[id]; o != nil && types.Identical(o.Type(), rs.At(i).Type()) {
					into = append(into, id.Name)
					continue
				}
			}
			t := fmt.Sprintf("res_x%d_%d", *in.n, i)
			pre += "var " + t + " " + h.typeText(in, rts[i]) + "; "
			into = append(into, t)
			l, r = append(l, w.text(w.f, x.Pos(), x.End())), append(r, t)
		}
		if len(l) > 0 {
			post = "; " + strings.Join(l, ", ") + " = " + strings.Join(r, ", ")
		}
	}
	// what is declared must not hide the arguments
	body := w.renderWith(h, c, args, mode, into, pre)
	in.add(w.f, in.off(s.Pos()), in.off(s.End()), body+post+w.there(s.End()))
}

func (w *inlineWalk) render(h *helperFn, c *ast.CallExpr, args []ast.Expr, mode string, into []string) string {
	return w.renderWith(h, c, args, mode, into, "")
}

// renderWith is the text of the body at the call.
func (w *inlineWalk) renderWith(h *helperFn, c *ast.CallExpr, args []ast.Expr, mode string, into []string, decls string) string {
	in := w.in
	suf := fmt.Sprintf("_x%d", *in.n)
	lab := fmt.Sprintf("Done_x%d", *in.n)
	var sb strings.Builder
	ids, ts := h.paramList()
	texts := w.argTexts(h, c, args, false)
	for i, id := range ids {
		nm := "_"
		if id != nil && id.Name != "_" {
			nm = id.Name + suf
		}
		tt := h.typeText(in, ts[i])
		if w.plain(h, c, args, i) {
			tt = ""
		}
		fmt.Fprintf(&sb, "var %s %s = %s; ", nm, tt, texts[i])
		if nm != "_" {
			fmt.Fprintf(&sb, "_ = %s; ", nm)
		}
	}
	sb.WriteString(decls)
	rids, rts := h.resultTypes()
	var named []string
	if h.named {
		for i, id := range rids {
			nm := id.Name + suf
			if id.Name == "_" {
				nm = fmt.Sprintf("blank%d%s", i, suf)
			}
			named = append(named, nm)
			fmt.Fprintf(&sb, "var %s %s; _ = %s; ", nm, h.typeText(in, rts[i]), nm)
		}
	}
	var es []inlineEdit
	for _, id := range h.locals {
		if id.Name == "_" || id.Pos() < h.decl.Body.Pos() {
			continue
		}
		es = append(es, inlineEdit{in.off(id.Pos()), in.off(id.End()), id.Name + suf})
	}
	jump := mode != "tail" && h.nRet > 0 && !(h.last)
	ast.Inspect(h.decl.Body, func(y ast.Node) bool {
		switch r := y.(type) {
		case *ast.FuncLit:
			return false
		case *ast.ReturnStmt:
			a, b := in.off(r.Pos()), in.off(r.End())
			vals := len(r.Results) > 0
			switch {
			case mode == "tail":
				if !vals && len(named) > 0 {
					es = append(es, inlineEdit{a, b, "return " + strings.Join(named, ", ")})
				}
			default:
				brk := ""
				if jump {
					brk = "; break " + lab
				}
				switch {
				case vals:
					es = append(es, inlineEdit{a, a + len("return"), "{ " + strings.Join(into, ", ") + " ="})
					es = append(es, inlineEdit{b, b, brk + " }"})
				case len(named) > 0:
					es = append(es, inlineEdit{a, b, "{ " + strings.Join(into, ", ") + " = " + strings.Join(named, ", ") + brk + " }"})
				default:
					if jump {
						es = append(es, inlineEdit{a, b, "break " + lab})
					} else {
						es = append(es, inlineEdit{a, b, ""})
					}
				}
			}
		}
		return true
	})
	a, b := in.off(h.decl.Body.Lbrace)+1, in.off(h.decl.Body.Rbrace)
	body := string(applyEdits(h.src, a, b, es))
	if jump {
		sb.WriteString(lab + ": switch { default: " + w.there(h.decl.Body.Lbrace+1) + body + "\n}")
	} else if mode == "tail" {
		sb.WriteString(w.there(h.decl.Body.Lbrace+1) + body + "\n")
	} else {
		sb.WriteString("{ " + w.there(h.decl.Body.Lbrace+1) + body + "\n}")
	}
	if mode == "tail" {
		return sb.String()
	}
	if strings.HasSuffix(sb.String(), "}") && mode != "tail" {
		sb.WriteString("; ")
	}
	return sb.String()
}

// fixImports adds the imports inlined bodies need and blanks those nothing
// uses any more.
func (in *inliner) fixImports(f *ast.File, src []byte) []byte {
	fset := token.NewFileSet()
	af, err := parser.ParseFile(fset, "x.go", src, parser.ParseComments)
	if err != nil {
		if os.Getenv("WATERCHECK_DEBUG") != "" {
			fmt.Fprintln(os.Stderr, "expand:", err)
			os.Stderr.Write(src)
		}
		return src
	}
	used := map[string]bool{}
	ast.Inspect(af, func(y ast.Node) bool {
		if s, ok := y.(*ast.SelectorExpr); ok {
			if id, ok := s.X.(*ast.Ident); ok && id.Obj == nil {
				used[id.Name] = true
			}
		}
		return true
	})
	name := map[string]string{} // import path -> name in the file
	for _, im := range f.Imports {
		if im.Name != nil {
			name[im.Path.Value] = im.Name.Name
		} else if pn, ok := in.info.Implicits[im].(*types.PkgName); ok {
			name[im.Path.Value] = pn.Name()
		}
	}
	off := func(p token.Pos) int { return fset.PositionFor(p, false).Offset }
	var es []inlineEdit
	have := map[string]bool{}
	for _, im := range af.Imports {
		nm := name[im.Path.Value]
		have[strings.Trim(im.Path.Value, "\"")] = nm != "_"
		if nm == "" || nm == "_" || nm == "." || used[nm] {
			continue
		}
		a := off(im.Path.Pos())
		if im.Name != nil {
			a = off(im.Name.Pos())
		}
		es = append(es, inlineEdit{a, off(im.Path.End()), "_ " + im.Path.Value})
	}
	var add []string
	for path, nm := range in.imports[f] {
		if used[nm] && !have[path] {
			add = append(add, fmt.Sprintf("; import %s %q", nm, path))
		}
	}
	sort.Strings(add)
	if len(add) > 0 {
		a := off(af.Name.End())
		es = append(es, inlineEdit{a, a, strings.Join(add, "")})
	}
	if len(es) == 0 {
		return src
	}
	return applyEdits(src, 0, len(src), es)
}
