package main

import (
	"go/types"
	"strings"
)

// reflectType returns the named type of package reflect.
func (p *Program) reflectType(name string) types.Type {
	for _, pk := range p.prog.AllPackages() {
		if pk.Pkg.Path() == "reflect" {
			if o := pk.Pkg.Scope().Lookup(name); o != nil {
				return o.Type()
			}
		}
	}
	return nil
}

// typeOfValue is the expression of the type of a reflect.Value.
func (it *Interp) typeOfValue(v *Expr) *Expr {
	in := it.in
	t := it.p.reflectType("Type")
	v = stripChange(v)
	if x := it.vtypes[v]; x != nil {
		return x
	}
	if v.Op == OpCall || v.Op == OpRes {
		switch v.Name {
		case "reflect.ValueOf":
			return in.mk(Expr{Op: OpCall, Name: "reflect.TypeOf", Args: v.Args, Typ: t})
		case "reflect.New":
			return in.mk(Expr{Op: OpCall, Name: "reflect.PtrTo", Args: v.Args, Typ: t})
		case "reflect.MakeSlice", "reflect.MakeMap", "reflect.Zero":
			return v.Args[0]
		case "(reflect.Value).Elem":
			if x := stripChange(v.Args[0]); x.Op == OpRes && x.Name == "reflect.New" {
				return x.Args[0]
			}
			return in.mk(Expr{Op: OpCall, Name: "(reflect.Type).Elem", Args: []*Expr{it.typeOfValue(v.Args[0])}, Typ: t})
		case "(reflect.Value).Index":
			return in.mk(Expr{Op: OpCall, Name: "(reflect.Type).Elem", Args: []*Expr{it.typeOfValue(v.Args[0])}, Typ: t})
		case "(reflect.Value).Field":
			sf := in.mk(Expr{Op: OpCall, Name: "(reflect.Type).Field", Args: []*Expr{it.typeOfValue(v.Args[0]), v.Args[1]}, Typ: it.p.reflectType("StructField")})
			return it.fieldOf(sf, "Type", t)
		}
	}
	return in.mk(Expr{Op: OpCall, Name: "(reflect.Value).Type", Args: []*Expr{v}, Typ: t})
}

// reflectFold brings equivalent questions about types to one form.
func (it *Interp) reflectFold(ev *CallEv, rt types.Type) *Expr {
	if !strings.HasPrefix(ev.Name, "(reflect.") && ev.Name != "reflect.TypeOf" {
		return nil
	}
	in := it.in
	switch ev.Name {
	case "(reflect.Value).Type":
		return it.typeOfValue(ev.Args[0])
	case "(reflect.Value).IsNil":
		// what a function, map, pointer... in an interface is
		if x := ifaceValue(ev.Args[0]); x != nil {
			switch x.Typ.Underlying().(type) {
			case *types.Pointer, *types.Map, *types.Signature, *types.Chan, *types.Slice:
				return in.eq(x, in.zero(x.Typ))
			}
		}
	case "(reflect.Value).Kind":
		if x := ifaceValue(ev.Args[0]); x != nil {
			if k := kindOfType(x.Typ); k >= 0 {
				return in.mk(Expr{Op: OpConst, Const: in.intc(k).Const, Typ: rt})
			}
		}
		return in.mk(Expr{Op: OpCall, Name: "(reflect.Type).Kind", Args: []*Expr{it.typeOfValue(ev.Args[0])}, Typ: rt})
	case "(reflect.Value).Len":
		if x := stripChange(ev.Args[0]); x.Op == OpRes && x.Name == "reflect.MakeSlice" {
			return x.Args[1]
		}
	case "(reflect.Value).NumField":
		return in.mk(Expr{Op: OpCall, Name: "(reflect.Type).NumField", Args: []*Expr{it.typeOfValue(ev.Args[0])}, Typ: rt})
	case "(reflect.Type).Elem":
		if x := stripChange(ev.Args[0]); (x.Op == OpCall || x.Op == OpRes) && (x.Name == "reflect.PtrTo" || x.Name == "reflect.PointerTo") {
			return x.Args[0]
		}
	case "(reflect.Value).Elem":
		if x := stripChange(ev.Args[0]); x.Op == OpCall && x.Name == "(reflect.Value).Addr" {
			return x.Args[0]
		}
	}
	return nil
}

// widenedValue keeps the type of a reflect.Value that was given up at a loop
// head when all the values it stands for have the same; true when that ended.
func (it *Interp) widenedValue(w, hv, iv *Expr) bool {
	if w.Typ == nil || typeKey(w.Typ) != "reflect.Value" {
		return false
	}
	if it.vtypes == nil {
		it.vtypes = map[*Expr]*Expr{}
		it.vmixed = map[*Expr]bool{}
	}
	if it.vmixed[w] {
		return false
	}
	a, b := it.typeOfValue(hv), it.typeOfValue(iv)
	old := it.vtypes[w]
	if hv == w && old == nil || a != b || old != nil && old != b {
		it.vmixed[w] = true
		delete(it.vtypes, w)
		return old != nil
	}
	it.vtypes[w] = b
	return false
}

// commonType finds a reflect value of the loop that both types are the type of.
func (it *Interp) commonType(hv, iv *Expr, from, lift map[*Expr]*Expr) *Expr {
	if typeKeyOr(hv.Typ) != "reflect.Type" {
		return nil
	}
	var found *Expr
	for w, x := range from {
		if typeKeyOr(w.Typ) == "reflect.Value" && (found == nil || w.ID < found.ID) && it.vtypes[w] == nil && it.typeOfValue(x) == hv && it.typeOfValue(lift[w]) == iv {
			found = w
		}
	}
	if found == nil {
		return nil
	}
	return it.typeOfValue(found)
}

// ifaceValue is the value of known type a reflect.Value was made from.
func ifaceValue(v *Expr) *Expr {
	v = stripChange(v)
	if (v.Op != OpCall && v.Op != OpRes) || v.Name != "reflect.ValueOf" || len(v.Args) != 1 {
		return nil
	}
	x := v.Args[0]
	if x.Op == OpIface && x.Args[0].Typ != nil && !types.IsInterface(x.Args[0].Typ) {
		return x.Args[0]
	}
	return nil
}

// kindOfType is the reflect.Kind of a type (-1 unknown).
func kindOfType(t types.Type) int64 {
	switch t := t.Underlying().(type) {
	case *types.Basic:
		m := map[types.BasicKind]int64{types.Bool: 1, types.Int: 2, types.Int8: 3, types.Int16: 4, types.Int32: 5, types.Int64: 6,
			types.Uint: 7, types.Uint8: 8, types.Uint16: 9, types.Uint32: 10, types.Uint64: 11, types.Uintptr: 12, types.Float32: 13,
			types.Float64: 14, types.Complex64: 15, types.Complex128: 16, types.String: 24, types.UnsafePointer: 26}
		if k, ok := m[t.Kind()]; ok {
			return k
		}
	case *types.Array:
		return 17
	case *types.Chan:
		return 18
	case *types.Signature:
		return 19
	case *types.Interface:
		return 20
	case *types.Map:
		return 21
	case *types.Pointer:
		return 22
	case *types.Slice:
		return 23
	case *types.Struct:
		return 25
	}
	return -1
}
