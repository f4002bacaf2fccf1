package main

import (
	"go/constant"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// c24kinds: the functions that convert a text to a value of any scalar kind
// are interpreted once for every kind, with an unknown text and with the empty
// one.
func c24kinds(p *Program, r *Report, c *c24t) {
	u := c.u
	kt := p.reflectType("Kind")
	all := []string{"SetInt", "SetUint", "SetBool", "SetFloat", "SetString"}
	complete := map[*ssa.Function]bool{}
	for f := range u.leaf {
		if _, ok := c.val[f]; !ok {
			continue
		}
		n := 0
		for _, s := range all {
			if p.fnReaches(f, map[*ssa.Function]bool{}, func(g *ssa.Function) bool {
				for _, b := range g.Blocks {
					for _, in := range b.Instrs {
						if ci, ok := in.(ssa.CallInstruction); ok && calleeName(ci.Common()) == "(reflect.Value)."+s {
							return true
						}
					}
				}
				return false
			}) {
				n++
			}
		}
		complete[f] = n == len(all)
	}
	for _, f := range p.Funcs() {
		if !complete[f] {
			continue
		}
		inner := false
		for g := range complete {
			if g != f && complete[g] && p.fnReaches(f, map[*ssa.Function]bool{}, func(h *ssa.Function) bool { return h == g }) {
				inner = true
			}
		}
		if inner {
			continue
		}
		for k := int64(1); k <= 24; k++ {
			if k == 12 || k > 14 && k != 24 {
				continue
			}
			for _, empty := range []bool{false, true} {
				it := newInterp(p)
				st := it.initial()
				args := u.args(it, f)
				vi, _ := u.valueArg(f)
				v := args[vi]
				for j := int64(0); j <= 26; j++ {
					st.facts[it.in.eq(it.kindOf(v), it.typedInt(j, kt))] = j == k
				}
				if empty {
					args[c.val[f]] = it.in.constOf(constant.MakeString(""), f.Params[c.val[f]].Type())
				}
				name := p.fnName(f)
				what := kindNames[k]
				it.hooks.Opaque = func(g *ssa.Function, ev *CallEv) bool { return g == f }
				it.hooks.Call = func(s *State, ev *CallEv) {
					if len(ev.Args) == 0 {
						return
					}
					if isSetter(ev.Name) {
						if stripChange(it.snapshot(s, ev.Args[0])) == v {
							s.auto["set"] = "1"
						}
						return
					}
					if strings.HasPrefix(ev.Name, "strconv.") {
						if t, ok := it.snapshot(s, ev.Args[0]).constStr(); ok && t == "" {
							r.fail("empty", name+" "+what, ev.Pos, s, "%s parses the empty text for a value of kind %s: the empty string stands for the zero value", name, what)
						}
					}
				}
				okk := false
				for _, e := range it.startWith(f, st, args) {
					if e.panic {
						continue
					}
					n := len(e.vals)
					if n > 0 && it.nilness(e.st, e.vals[n-1]) == -1 {
						continue
					}
					if e.st.auto["set"] != "" {
						okk = true
					}
				}
				r.ok("kinds", name+" "+what)
				if !okk {
					if empty {
						r.fail("empty", name+" "+what, f.Pos(), nil, "%s never sets a value of kind %s from the empty text", name, what)
					} else {
						r.fail("kinds", name+" "+what, f.Pos(), nil, "%s never sets a value of kind %s", name, what)
					}
				}
			}
		}
	}
}

var kindNames = map[int64]string{1: "bool", 2: "int", 3: "int8", 4: "int16", 5: "int32", 6: "int64", 7: "uint", 8: "uint8", 9: "uint16", 10: "uint32", 11: "uint64", 13: "float32", 14: "float64", 24: "string"}
