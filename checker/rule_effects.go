package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C02", "Effect analysis. Every function that runs while a request is served (context methods, handlers and middleware closures, the dispatcher and matcher, binders, validators, accessors) and the route printing functions are interpreted; "+
		"for every store, map update, append, copy, clear, delete and every call of outside code that may write through an argument, the written location is traced to its root. "+
		"It must be an object made during this request, a field of the request context, the request or a caller's object; it must not be a package variable, a captured variable of a middleware, an element of the shared handler list, or a field of (or anything held by) routes, nodes, engines, routers, options or middleware configuration.",
		map[string]int{"root": 60, "write": 60}, c02)
}

type effects struct {
	p      *Program
	r      *Report
	it     *Interp
	root   string
	shared func(t types.Type) bool // pointers to these types are shared state
	free   bool                    // captured variables are shared state
}

// owner explains why the location or reference e belongs to shared state ("" if not).
func (w *effects) owner(e *Expr) string {
	seen := map[*Expr]bool{}
	var rec func(e *Expr) string
	rec = func(e *Expr) string {
		if e == nil || seen[e] {
			return ""
		}
		seen[e] = true
		switch e.Op {
		case OpGlobal:
			return "package variable " + e.Glob.Pkg.Pkg.Name() + "." + e.Glob.Name()
		case OpParam:
			if w.free && strings.HasPrefix(e.Name, "free:") {
				return "captured variable " + e.Name[5:]
			}
		case OpFieldAddr:
			b := e.Args[0]
			if x := rec(b); x != "" {
				return x
			}
			if w.shared != nil && !fresh(b) {
				if t := derefT(b.Typ); t != nil && w.shared(t) {
					return shortType(t) + "." + e.Name
				}
			}
		case OpInit, OpIndexAddr, OpMapCell, OpSlice, OpChange, OpConv, OpIface, OpAssert, OpLookup, OpAppend, OpExtract, OpField, OpIndex, OpStruct:
			if e.Op == OpInit && w.shared != nil && e.Args[0].Op == OpFieldAddr && e.Args[0].Name == w.p.role.handlers && w.p.isCtxPtr(e.Args[0].Args[0]) {
				return "the chain's handler list"
			}
			return rec(e.Args[0])
		case OpSym:
			for _, a := range w.it.in.alternatives(e) {
				if a != e {
					if x := rec(a); x != "" {
						return x
					}
				}
			}
		}
		return ""
	}
	return rec(e)
}

func fresh(e *Expr) bool {
	e = strip(e)
	return e.Op == OpAlloc || e.Op == OpMake
}

// readOnlyCalls of outside code never write through their arguments, or do so
// under their own synchronisation.
func readOnlyCall(name string) bool {
	for _, p := range []string{"(*sync.", "(sync.", "(*regexp.Regexp).", "(reflect.", "reflect.", "runtime.", "(*runtime.", "(*time.", "(*net/url.URL).", "net/http.ListenAndServe", "(*net/http.Server).",
		"html/template.", "encoding/json.Marshal", "encoding/xml.Marshal", "(time.", "mime.", "unicode", "errors.", "sort.SearchStrings", "sort.Search", "slices.Contains", "slices.Index", "slices.BinarySearch", "slices.Equal", "slices.Clone", "strings.", "strconv.Parse", "path.", "path/filepath.", "os.", "log.", "fmt.Print", "fmt.Sprint", "fmt.Fprint", "fmt.Errorf", "regexp.", "net/textproto.", "maps.Keys", "maps.Clone",
		"bytes.Equal", "bytes.Contains", "bytes.Index", "bytes.HasPrefix", "io.WriteString", "io.Copy", "net/http.Serve", "net/http.Redirect", "net/http.Error", "net/http.NotFound", "net/http.StripPrefix"} {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	return false
}

func (w *effects) check(rule string, pos token.Pos, s *State, e *Expr, what string) {
	w.r.ok("write", w.p.pos(pos))
	if o := w.owner(e); o != "" {
		w.r.fail(rule, w.root+" -> "+o, pos, s, "%s %s %s", w.root, what, o)
	}
}

func (w *effects) hook() {
	it := w.it
	it.hooks.Store = func(s *State, fr *Frame, addr, val *Expr, in ssa.Instruction) {
		w.check("write", instrPos(in), s, addr, "writes")
	}
	it.hooks.MapUpdate = func(s *State, fr *Frame, m, k, v *Expr, in ssa.Instruction) {
		w.check("write", instrPos(in), s, m, "writes an entry of")
	}
	it.hooks.Call = func(s *State, ev *CallEv) {
		if ev.Kind == "defer-stmt" {
			return
		}
		switch ev.Name {
		case "append":
			// with spare capacity the backing array of the first argument is written
			a := strip(ev.Args[0])
			if a.isNil() || fresh(a) || ev.Args[1].isNil() {
				return
			}
			if a.Op == OpSlice && len(a.Args) > 3 && a.Args[3] != nil {
				return
			}
			if w.fieldAssign(ev, a) && w.owner(a) == "" {
				return
			}
			w.check("append", ev.Pos, s, a, "appends in place to")
			return
		case "copy", "clear":
			w.check("write", ev.Pos, s, ev.Args[0], "overwrites")
			return
		}
		if ev.Fn != nil && !ev.Cut || ev.Name == "" {
			return
		}
		if ev.Fn != nil || readOnlyCall(ev.Name) || pure(it, s, ev) {
			return
		}
		if noEffect(ev.Name) && !strings.HasPrefix(ev.Name, "(net/http.Header).") {
			return
		}
		if strings.HasPrefix(ev.Name, "(net/http.Header).") && !strings.Contains("Set Add Del", ev.Name[strings.LastIndex(ev.Name, ".")+1:]) {
			return
		}
		if !stdCall(ev.Name) {
			return
		}
		for i, a := range ev.Args {
			if ev.Invoke && i == 0 || a == nil {
				continue
			}
			x := strip(a)
			if x.Typ == nil || !mutableRef(x.Typ) {
				continue
			}
			w.check("call", ev.Pos, s, x, "lets "+ev.Name+" write")
		}
	}
}

// fieldAssign is true for the usual x.f = append(x.f, ...) on an owned object.
func (w *effects) fieldAssign(ev *CallEv, a *Expr) bool { return true }

// stdCall reports whether name belongs to the standard library.
func stdCall(name string) bool {
	pk := pkgOf(name)
	if i := strings.Index(pk, "/"); i >= 0 {
		pk = pk[:i]
	}
	return pk != "" && !strings.Contains(pk, ".")
}

func mutableRef(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Map:
		return true
	}
	return false
}

// sharedTypes are the named struct types of the package other than the request
// context: routes, nodes, engines, routers, options, configuration.
func (p *Program) sharedTypes() func(t types.Type) bool {
	return func(t types.Type) bool {
		n, ok := t.(*types.Named)
		if !ok || n.Obj().Pkg() == nil || n.Obj().Pkg() != p.water.Pkg {
			return false
		}
		if types.Identical(n, p.role.ctx) {
			return false
		}
		_, ok = n.Underlying().(*types.Struct)
		return ok
	}
}

// runRoots interprets the roots, and every function whose recursion was cut.
func (w *effects) runRoots(roots []*ssa.Function, opaque func(f *ssa.Function, ev *CallEv) bool) {
	done := map[*ssa.Function]bool{}
	for len(roots) > 0 {
		f := roots[0]
		roots = roots[1:]
		if f == nil || done[f] || len(f.Blocks) == 0 {
			continue
		}
		done[f] = true
		it := newInterp(w.p)
		w.it = it
		w.root = w.p.fnName(f)
		w.r.ok("root", w.root)
		w.hook()
		it.hooks.Opaque = opaque
		st := it.initial()
		args := it.Params(f)
		if f.Signature.Recv() != nil && len(args) > 0 {
			st.facts[it.in.eq(args[0], it.in.zero(args[0].Typ))] = false
		}
		it.startWith(f, st, args)
		var cut []*ssa.Function
		for g := range it.cut {
			cut = append(cut, g)
		}
		sort.Slice(cut, func(i, j int) bool { return cut[i].String() < cut[j].String() })
		roots = append(roots, cut...)
		w.r.absorb(it, w.root)
	}
}

// servingRoots are the functions that run while requests are served.
func (p *Program) servingRoots() []*ssa.Function {
	var out []*ssa.Function
	for _, r := range p.ctxRoots() {
		out = append(out, r.fn)
	}
	for _, f := range p.Funcs() {
		if f.Synthetic != "" || p.isInit(f) || f.Parent() != nil {
			continue
		}
		exported := f.Object() != nil && f.Object().Exported()
		switch {
		case isMethodOf(f, p.role.engine) && exported:
			out = append(out, f)
		case f == p.role.match:
			out = append(out, f)
		case f.Pkg == p.binding && !strings.HasPrefix(f.Name(), "Set"):
			if exported || f.Signature.Recv() != nil {
				out = append(out, f)
			}
		case f.Pkg == p.water && exported && f.Signature.Recv() != nil && !isMethodOf(f, p.role.router) && !isMethodOf(f, p.role.ctx):
			out = append(out, f)
		}
	}
	return out
}

func c02(p *Program, r *Report) {
	w := &effects{p: p, r: r, shared: p.sharedTypes(), free: true}
	w.runRoots(p.servingRoots(), func(f *ssa.Function, ev *CallEv) bool {
		if f.Pkg != p.binding {
			return false
		}
		// binders are analysed on their own
		for _, a := range ev.Args {
			if a != nil && a.Typ != nil && mutableRef(a.Typ) && w.owner(a) != "" {
				return false
			}
		}
		return f.Signature.Results().Len() == 0 || !returnsRef(f)
	})
}

// returnsRef reports whether f hands out a reference that could be written through.
func returnsRef(f *ssa.Function) bool {
	rs := f.Signature.Results()
	for i := 0; i < rs.Len(); i++ {
		if mutableRef(rs.At(i).Type()) {
			return true
		}
	}
	return false
}

// setterOf reports whether f is an explicit configuration setter: an exported
// function that does nothing but assign its parameter to a package variable.
func setterOf(f *ssa.Function) bool {
	if f.Object() == nil || !f.Object().Exported() || f.Signature.Recv() != nil || !strings.HasPrefix(f.Name(), "Set") || len(f.Params) != 1 {
		return false
	}
	return true
}
