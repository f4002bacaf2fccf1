package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Root is a function user code or the server can start with a request context.
type Root struct {
	name string
	fn   *ssa.Function
	ctxI int // index of the context parameter, -1 for the dispatcher
}

// ctxParam returns the index of the *Context parameter of f, or -1.
func (p *Program) ctxParam(f *ssa.Function) int {
	for i, a := range f.Params {
		if types.Identical(derefT(a.Type()), p.role.ctx) {
			return i
		}
	}
	return -1
}

// isMethodOf reports whether f is a method of the named type.
func isMethodOf(f *ssa.Function, n *types.Named) bool {
	if f.Signature.Recv() == nil {
		return false
	}
	t := f.Signature.Recv().Type()
	if d := derefT(t); d != nil {
		t = d
	}
	return types.Identical(t, n)
}

// staticCallers counts the static calls of every module function.
func (p *Program) staticCallers() map[*ssa.Function]int {
	out := map[*ssa.Function]int{}
	for _, f := range p.Funcs() {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					if g := c.Common().StaticCallee(); g != nil {
						out[g]++
					}
				}
			}
		}
	}
	return out
}

// ctxRoots lists the entry points that work on a request context: exported
// methods of the context, functions and closures that take one, and the
// dispatcher.
func (p *Program) ctxRoots() []Root {
	var out []Root
	callers := p.staticCallers()
	for _, f := range p.Funcs() {
		i := p.ctxParam(f)
		if i < 0 || f.Synthetic != "" {
			continue
		}
		exported := f.Object() != nil && f.Object().Exported()
		switch {
		case isMethodOf(f, p.role.ctx):
			if !exported && callers[f] > 0 {
				continue
			}
		case f.Parent() != nil:
			// a closure called where it is made is analysed with its caller
			if callers[f] > 0 {
				continue
			}
		default:
			if !exported && callers[f] > 0 {
				continue
			}
		}
		out = append(out, Root{name: p.fnName(f), fn: f, ctxI: i})
	}
	out = append(out, Root{name: p.fnName(p.role.serve), fn: p.role.serve, ctxI: -1})
	sort.Slice(out, func(i, j int) bool { return out[i].name < out[j].name })
	return out
}

// fnName is a short stable name of a module function.
func (p *Program) fnName(f *ssa.Function) string {
	if f == nil {
		return "?"
	}
	if f.Parent() != nil {
		return p.fnName(f.Parent()) + "$func"
	}
	n := fullName(f)
	n = strings.ReplaceAll(n, p.module+"/", "")
	n = strings.ReplaceAll(n, p.module+".", "")
	return n
}

// start runs a root with symbolic arguments and free variables.
func (it *Interp) start(f *ssa.Function, st *State) []exit {
	return it.startWith(f, st, it.Params(f))
}

func (it *Interp) startWith(f *ssa.Function, st *State, args []*Expr) []exit {
	var binds []*Expr
	for _, fv := range f.FreeVars {
		b := it.param("free:"+f.Name()+"."+fv.Name(), fv.Type())
		st.facts[it.in.eq(b, it.in.zero(b.Typ))] = false
		binds = append(binds, b)
	}
	return it.Run(f, st, args, binds)
}

// implementsWriter reports whether t is an interface that can send a response.
func implementsWriter(t types.Type) bool {
	if t == nil || !types.IsInterface(t) {
		return false
	}
	i := t.Underlying().(*types.Interface)
	wh, hd := false, false
	for k := 0; k < i.NumMethods(); k++ {
		switch i.Method(k).Name() {
		case "WriteHeader":
			wh = true
		case "Header":
			hd = true
		}
	}
	return wh && hd
}

// isRaw reports whether e is an underlying response writer, not the context.
func (it *Interp) isRaw(e *Expr) bool {
	e = strip(e)
	if e == nil || e.Op == OpIface || e.Op == OpConst {
		return false
	}
	return implementsWriter(e.Typ)
}

// reaches reports whether a value for which pred holds is e, is part of e, or
// is stored in an object e leads to that was created during the analysis.
func (it *Interp) reaches(s *State, e *Expr, pred func(*Expr) bool) bool {
	seen := map[*Expr]bool{}
	var rec func(e *Expr) bool
	rec = func(e *Expr) bool {
		if e == nil || seen[e] {
			return false
		}
		seen[e] = true
		if pred(e) {
			return true
		}
		switch e.Op {
		case OpAlloc, OpMake:
			for c, v := range s.mem {
				if addrRoot(c) == e && rec(v) {
					return true
				}
			}
			return false
		case OpFieldAddr, OpIndexAddr, OpMapCell:
			// interior pointer into a new object
			if r := addrRoot(e); r.Op == OpAlloc || r.Op == OpMake {
				return rec(r)
			}
			return false
		case OpIface, OpChange, OpConv, OpStruct, OpTuple, OpList, OpAppend, OpClosure, OpSlice, OpAssert, OpField:
			for _, a := range e.Args {
				if rec(a) {
					return true
				}
			}
			return false
		case OpSym:
			for _, a := range it.in.alternatives(e) {
				if a != e && rec(a) {
					return true
				}
			}
			return false
		case OpRes, OpExtract:
			// what an outside constructor got is kept by its result
			if (derefT(e.Typ) != nil || types.IsInterface(e.Typ)) && typeKey(e.Typ) != "error" {
				x := e
				if e.Op == OpExtract && e.Args[0].Op == OpRes {
					x = e.Args[0]
				}
				for _, a := range x.Args {
					if rec(a) {
						return true
					}
				}
			}
		}
		return false
	}
	return rec(e)
}

// isHeaderMap reports whether e is the header map of the response.
func (it *Interp) isRespHeader(e *Expr) bool {
	e = stripChange(e)
	return e.Op == OpCall && e.Name == "(net/http.ResponseWriter).Header"
}

// fieldType returns the type of a context field.
func fieldType(p *Program, name string) types.Type {
	for i := 0; i < p.role.ctxFields.NumFields(); i++ {
		if f := p.role.ctxFields.Field(i); f.Name() == name {
			return f.Type()
		}
	}
	return nil
}
