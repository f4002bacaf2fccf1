package main

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	extraConfigs["C22"] = []Config{cfg386}
	register("C22", "Every store of a number into a reflect.Value in the binding package (SetInt, SetUint, SetFloat and numeric Convert) is examined on every path of the functions that fill values from request data. "+
		"The stored number must be the result of the strconv parser of the same signedness, whose error is known nil, with a bit size that is the Bits of the type of the very value stored into, or a constant equal to the width of the kind that value is known to have on the path (on 64-bit and 32-bit platforms); or its overflow must have been excluded.",
		map[string]int{"store": 6, "unit": 5}, c22)
}

var kindBits = map[int64]int64{2: 0, 3: 8, 4: 16, 5: 32, 6: 64, 7: 0, 8: 8, 9: 16, 10: 32, 11: 64, 12: -1, 13: 32, 14: 64}

func c22(p *Program, r *Report) {
	u := newBindUnits(p)
	word := p.sizes().Sizeof(typInt) * 8
	visited := map[ssa.Instruction]bool{}
	u.run(r, func(it *Interp, f *ssa.Function, s0 *State, args []*Expr) {
		in := it.in
		r.ok("unit", p.fnName(f))
		it.hooks.Call = func(s *State, ev *CallEv) {
			if ev.Instr == nil || ev.Kind == "defer-stmt" {
				return
			}
			var want string
			switch ev.Name {
			case "(reflect.Value).SetInt":
				want = "int"
			case "(reflect.Value).SetUint":
				want = "uint"
			case "(reflect.Value).SetFloat":
				want = "float"
			case "(reflect.Value).Convert":
				want = "any"
			default:
				return
			}
			visited[ev.Instr] = true
			name := p.fnName(ev.Fr.fn) + " " + strings.TrimPrefix(ev.Name, "(reflect.Value).")
			v := it.snapshot(s, ev.Args[0])
			x := it.snapshot(s, ev.Args[1])
			var t, kind *Expr
			if want == "any" {
				t = x
				x = stripIface(stripChange(v))
				if x.Op == OpCall && x.Name == "reflect.ValueOf" {
					x = stripIface(x.Args[0])
				}
				kind = in.mk(Expr{Op: OpCall, Name: "(reflect.Type).Kind", Args: []*Expr{t}, Typ: p.reflectType("Kind")})
			} else {
				t = it.typeOfValue(v)
				kind = it.kindOf(v)
			}
			c22store(p, r, it, s, ev, name, want, v, x, t, kind, word)
		}
	}, nil)
	for _, f := range p.Funcs() {
		if f.Pkg != p.binding || f.Synthetic != "" {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					switch calleeName(c.Common()) {
					case "(reflect.Value).SetInt", "(reflect.Value).SetUint", "(reflect.Value).SetFloat", "(reflect.Value).Convert":
						if !visited[in] {
							r.fail("unvisited", p.fnName(f), instrPos(in), nil, "a store of a number in %s was reached by no unit", p.fnName(f))
						}
					}
				}
			}
		}
	}
}

func c22store(p *Program, r *Report, it *Interp, s *State, ev *CallEv, name, want string, v, x, t, kind *Expr, word int64) {
	in := it.in
	r.ok("store", name+p.pos(ev.Pos))
	y := x
	for y.Op == OpConv && isInteger(y.Typ) && isInteger(y.Args[0].Typ) && p.sizes().Sizeof(y.Typ) >= p.sizes().Sizeof(y.Args[0].Typ) && isUnsigned(y.Typ) == isUnsigned(y.Args[0].Typ) ||
		y.Op == OpConv && isFloatT(y.Typ) && isFloatT(y.Args[0].Typ) {
		y = y.Args[0]
	}
	if n, ok := y.constInt(); ok && n >= 0 && n < 128 {
		return
	}
	if y.Op == OpConst && want == "float" {
		return
	}
	// overflow excluded
	for _, o := range []string{"OverflowInt", "OverflowUint", "OverflowFloat"} {
		if q := in.mk(Expr{Op: OpCall, Name: "(reflect.Value)." + o, Args: []*Expr{v, x}, Typ: typBool}); want != "any" && it.truth(s, q) == -1 && c22parsed(it, s, y) {
			return
		}
	}
	kd, bits, _, call := strconvOf(y, p.sizes())
	if call == nil || y.Op == OpExtract && y.Name != "0" {
		r.fail("unparsed", name, ev.Pos, s, "%s stores %s, which is not the result of a parse with the width of the field", name, x)
		return
	}
	if want != "any" && kd != want {
		r.fail("sign", name, ev.Pos, s, "%s stores %s, the result of another kind of parse", name, x)
		return
	}
	if !c22parsed(it, s, y) {
		r.fail("unchecked", name, ev.Pos, s, "%s stores the result of a parse that may have failed: %s", name, x)
		return
	}
	// the width
	if len(call.Args) > 1 {
		b := call.Args[len(call.Args)-1]
		if b == in.mk(Expr{Op: OpCall, Name: "(reflect.Type).Bits", Args: []*Expr{t}, Typ: typInt}) {
			return
		}
	}
	if bits <= 0 {
		r.fail("width", name, ev.Pos, s, "%s stores a number parsed with an unknown width: %s", name, x)
		return
	}
	k := it.constOfState(s, kind)
	if k == nil {
		r.fail("width", name, ev.Pos, s, "%s stores a number parsed with %d bits into a value whose width is not known", name, bits)
		return
	}
	n, _ := k.constInt()
	w, ok := kindBits[n]
	if w == 0 {
		w = word
	}
	if w < 0 {
		w = word
	}
	if !ok || w != bits {
		r.fail("width", name, ev.Pos, s, "%s stores a number parsed with %d bits into a value of %d bits", name, bits, w)
		return
	}
	if want == "any" {
		u := n >= 7 && n <= 12
		fl := n >= 13
		if u != (kd == "uint") || fl != (kd == "float") {
			r.fail("sign", name, ev.Pos, s, "%s converts %s to another kind of number", name, x)
		}
	}
}

// c22parsed: y is the first result of a call whose error is known nil.
func c22parsed(it *Interp, s *State, y *Expr) bool {
	if y.Op != OpExtract {
		return false
	}
	return it.nilness(s, it.extract(y.Args[0], 1, typError)) == 1
}
