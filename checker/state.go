package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type envKey struct {
	frame int
	v     ssa.Value
}

type deferred struct {
	instr *ssa.Defer
	fn    *Expr
	args  []*Expr
	call  *ssa.CallCommon
}

type pathStep struct {
	pos  token.Pos
	text string
	prev *pathStep
}

// State is one abstract state of the path-sensitive analysis.
type State struct {
	env    map[envKey]*Expr
	mem    map[*Expr]*Expr
	epoch  map[*Expr]string
	facts  map[*Expr]bool
	auto   map[string]string
	lists  map[string][]*Expr
	ghost  map[string]*Expr // integer variables of a rule, kept in step with loops
	gens   map[genKey]int   // loop heads passed: how often they were joined
	defers map[int][]deferred
	// panicking is the value of the panic being propagated.
	panicking *Expr
	path      *pathStep
}

func newState() *State {
	return &State{env: map[envKey]*Expr{}, mem: map[*Expr]*Expr{}, epoch: map[*Expr]string{}, facts: map[*Expr]bool{},
		auto: map[string]string{}, lists: map[string][]*Expr{}, ghost: map[string]*Expr{}, defers: map[int][]deferred{}}
}

func (s *State) clone() *State {
	n := &State{env: make(map[envKey]*Expr, len(s.env)+8), mem: make(map[*Expr]*Expr, len(s.mem)+8),
		epoch: make(map[*Expr]string, len(s.epoch)), facts: make(map[*Expr]bool, len(s.facts)+4),
		auto: make(map[string]string, len(s.auto)), lists: make(map[string][]*Expr, len(s.lists)),
		ghost: make(map[string]*Expr, len(s.ghost)), gens: s.gens, defers: make(map[int][]deferred, len(s.defers)), panicking: s.panicking, path: s.path}
	for k, v := range s.env {
		n.env[k] = v
	}
	for k, v := range s.mem {
		n.mem[k] = v
	}
	for k, v := range s.epoch {
		n.epoch[k] = v
	}
	for k, v := range s.facts {
		n.facts[k] = v
	}
	for k, v := range s.auto {
		n.auto[k] = v
	}
	for k, v := range s.lists {
		n.lists[k] = v
	}
	for k, v := range s.ghost {
		n.ghost[k] = v
	}
	for k, v := range s.defers {
		n.defers[k] = v
	}
	return n
}

// mark notes that a changed, keeping the note that all below it did.
func (s *State) mark(a *Expr, tag string) {
	if strings.HasSuffix(s.epoch[a], "*") {
		tag += "*"
	}
	s.epoch[a] = tag
}

type genKey struct {
	frame int
	blk   *ssa.BasicBlock
}

func (s *State) setGen(k genKey, n int) {
	if s.gens[k] == n {
		return
	}
	g := make(map[genKey]int, len(s.gens)+1)
	for a, b := range s.gens {
		g[a] = b
	}
	g[k] = n
	s.gens = g
}

func (s *State) push(list string, e ...*Expr) {
	l := s.lists[list]
	s.lists[list] = append(l[:len(l):len(l)], e...)
}

func (s *State) autoKey() string {
	var ks []string
	for k, v := range s.auto {
		if v != "" {
			ks = append(ks, k+"="+v)
		}
	}
	sort.Strings(ks)
	return strings.Join(ks, ";")
}

func (s *State) step(pos token.Pos, text string) {
	s.path = &pathStep{pos: pos, text: text, prev: s.path}
}

func sortedExprs[V any](m map[*Expr]V) []*Expr {
	out := make([]*Expr, 0, len(m))
	for k := range m {
		out = append(out, k)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].ID < out[j].ID })
	return out
}

// ---- facts ----

// truth decides a boolean value in s: 1 true, -1 false, 0 unknown.
func (it *Interp) truth(s *State, e *Expr) int { return it.truthD(s, e, 3) }

func b2i(b bool) int {
	if b {
		return 1
	}
	return -1
}

func (it *Interp) truthD(s *State, e *Expr, depth int) int {
	in := it.in
	if v, ok := e.constBool(); ok {
		return b2i(v)
	}
	if e.Op == OpNot {
		return -it.truthD(s, e.Args[0], depth)
	}
	if v, ok := s.facts[e]; ok {
		return b2i(v)
	}
	if e.Op == OpChange || e.Op == OpConv {
		return it.truthD(s, e.Args[0], depth)
	}
	if e.Op == OpBin && e.Name == "==" {
		a, b := e.Args[0], e.Args[1]
		if b.isNil() {
			switch it.nilness(s, a) {
			case 1:
				return 1
			case -1:
				return -1
			}
		} else if a.Op == OpIface && b.Op == OpIface || a.Op == OpIface && b.Op == OpConst || b.Op == OpIface && a.Op == OpConst {
			if a.Op == OpIface && b.Op == OpIface {
				if typeKey(a.Args[0].Typ) != typeKey(b.Args[0].Typ) {
					return -1
				}
				return it.truthD(s, in.eq(a.Args[0], b.Args[0]), depth)
			}
		}
		if b.Op == OpConst && b.Const != nil {
			// x == c with a different constant known for x
			for f, v := range s.facts {
				if v && f.Op == OpBin && f.Name == "==" && f.Args[0] == a && f.Args[1].Op == OpConst && f.Args[1].Const != nil && f.Args[1] != b {
					if comparableConst(f.Args[1].Const, b.Const) {
						return -1
					}
				}
			}
			if sv, ok := b.constStr(); ok && isStringT(a.Typ) {
				// contradiction through the length
				if it.truthD(s, in.eq(in.lenOf(a), in.intc(int64(len(sv)))), 1) == -1 {
					return -1
				}
			}
		}
	}
	if e.Op == OpCall && e.Name == "strings.Contains" && len(e.Args) == 2 {
		if c, ok := e.Args[1].constStr(); ok && c != "" {
			return -it.truthD(s, in.lss(it.indexOf(e.Args[0], e.Args[1]), in.intc(0)), depth)
		}
	}
	if e.Op == OpAssertOk {
		if r := it.assertKnown(s, e); r != 0 {
			return r
		}
	}
	if e.Op == OpBin && len(e.Args) == 2 && isInteger(e.Args[0].Typ) && isInteger(e.Args[1].Typ) && (e.Name == "<" || e.Name == "==") {
		x, k := split(e.Args[0])
		y, l := split(e.Args[1])
		c := k - l
		if cx, ok := x.constInt(); ok {
			x = nil
			c += cx
		}
		if cy, ok := y.constInt(); ok {
			y = nil
			c -= cy
		}
		// e is x + c (<|==) y
		if e.Name == "<" {
			if ub, ok := it.diff(s, x, y); ok && ub+c < 0 {
				return 1
			}
			if ub, ok := it.diff(s, y, x); ok && ub-c <= 0 {
				return -1
			}
			if x != nil {
				// a bound that is known not to be reached
				differs := func(k int64) bool {
					o := in.intc(0)
					if y != nil {
						o = y
					}
					q := in.eq(in.addc(x, k), o)
					if q.Op == OpConst {
						return false
					}
					v, ok := s.facts[q]
					return ok && !v
				}
				if ub, ok := it.diff(s, x, y); ok && ub+c == 0 && differs(c) {
					return 1
				}
				if ub, ok := it.diff(s, y, x); ok && ub-c == 1 && differs(c+1) {
					return -1
				}
			}
		} else {
			u1, ok1 := it.diff(s, x, y)
			u2, ok2 := it.diff(s, y, x)
			if ok1 && u1+c < 0 || ok2 && u2-c < 0 {
				return -1
			}
			if ok1 && ok2 && u1+c == 0 && u2-c == 0 {
				return 1
			}
		}
	}
	if depth > 0 {
		// substitute known constants
		for f, v := range s.facts {
			var x, c *Expr
			switch {
			case v && f.Op == OpBin && f.Name == "==" && f.Args[1].Op == OpConst && f.Args[0].Op != OpConst:
				x, c = f.Args[0], f.Args[1]
			default:
				continue
			}
			if c.isNil() && x.Op == OpIface {
				continue
			}
			if e2 := in.subst(e, x, c); e2 != e {
				if r := it.truthD(s, e2, depth-1); r != 0 {
					return r
				}
			}
		}
	}
	return 0
}

// indexOf is the position of y in x.
func (it *Interp) indexOf(x, y *Expr) *Expr {
	return it.in.mk(Expr{Op: OpCall, Name: "strings.Index", Args: []*Expr{x, y}, Typ: types.Typ[types.Int]})
}

// nilness: 1 nil, -1 non-nil, 0 unknown.
func (it *Interp) nilness(s *State, a *Expr) int {
	if a.isNil() {
		return 1
	}
	switch a.Op {
	case OpAlloc, OpMake, OpFunc, OpClosure, OpFieldAddr, OpIndexAddr, OpGlobal, OpIface, OpMapCell:
		return -1
	case OpList:
		return -1
	case OpChange:
		return it.nilness(s, a.Args[0])
	case OpSlice:
		return it.nilness(s, a.Args[0])
	case OpCall, OpRes:
		if nonNilCalls[a.Name] {
			return -1
		}
	case OpAssert:
		// a successful assertion to an interface is not nil
		if it.nilness(s, a.Args[0]) == 1 {
			return 1
		}
	}
	if v, ok := s.facts[it.in.eq(a, it.in.zero(a.Typ))]; ok {
		return b2i(v)
	}
	if _, ok := a.Typ.Underlying().(*types.Slice); ok && a.Op != OpSlice {
		// a slice with elements is not nil
		if it.truthD(s, it.in.lss(it.in.lenOf(a), it.in.intc(1)), 0) == -1 {
			return -1
		}
	}
	// ok-results: x is T holds only for non-nil x
	for f, v := range s.facts {
		if v && f.Op == OpAssertOk && f.Args[0] == a {
			return -1
		}
	}
	return 0
}

// exact returns x-y when the facts fix it.
func (it *Interp) exact(s *State, x, y *Expr) (int64, bool) {
	a, k := split(x)
	b, l := split(y)
	if c, ok := a.constInt(); ok {
		a, k = nil, k+c
	}
	if c, ok := b.constInt(); ok {
		b, l = nil, l+c
	}
	u, ok1 := it.diff(s, a, b)
	v, ok2 := it.diff(s, b, a)
	if !ok1 || !ok2 || u != -v {
		return 0, false
	}
	return u + k - l, true
}

// diff returns an upper bound of x-y from the facts (difference constraints).
func (it *Interp) diff(s *State, x, y *Expr) (int64, bool) {
	if x == y {
		return 0, true
	}
	type edge struct {
		from, to *Expr // to - from <= w
		w        int64
	}
	var es []edge
	add := func(a, b *Expr, c int64) { es = append(es, edge{b, a, c}) } // a-b<=c
	norm := func(e *Expr) (*Expr, int64) {
		b, k := split(e)
		if c, ok := b.constInt(); ok {
			return nil, c + k
		}
		return b, k
	}
	lens := map[*Expr]bool{}
	found := map[*Expr]bool{}
	next := map[*Expr]bool{}
	note := func(e *Expr) {
		if e != nil && e.Op == OpCall && len(e.Args) == 2 && (strings.HasPrefix(e.Name, "strings.Index") || strings.HasPrefix(e.Name, "strings.LastIndex")) && isStringT(e.Args[0].Typ) {
			if c, ok := e.Args[1].constStr(); ok && len(c) >= 1 || e.Name != "strings.Index" && e.Name != "strings.LastIndex" {
				found[e] = true
			}
		}
		if e != nil && (e.Op == OpLen || e.Op == OpCap) {
			lens[e] = true
		}
		if e != nil && e.Op == OpRes && e.Name == "next.i" {
			ok := it.in.mk(Expr{Op: OpRes, Name: "next.ok", Tag: e.Tag, Args: e.Args, Typ: typBool})
			if s.facts[ok] {
				next[e] = true
			}
		}
	}
	note(x)
	note(y)
	for f, v := range s.facts {
		if f.Op != OpBin || len(f.Args) != 2 || !isInteger(f.Args[0].Typ) || !isInteger(f.Args[1].Typ) {
			continue
		}
		a, k := norm(f.Args[0])
		b, l := norm(f.Args[1])
		note(a)
		note(b)
		switch f.Name {
		case "<":
			if v { // a+k < b+l  => a-b <= l-k-1
				add(a, b, l-k-1)
			} else { // b+l <= a+k => b-a <= k-l
				add(b, a, k-l)
			}
		case "==":
			if v {
				add(a, b, l-k)
				add(b, a, k-l)
			}
		}
	}
	for x := range found {
		// -1 <= strings.Index(s, one character) < len(s)
		add(nil, x, 1)
		if v, ok := s.facts[it.in.eq(x, it.in.intc(-1))]; ok && !v {
			add(nil, x, 0)
		}
		n := it.in.lenOf(x.Args[0])
		b, k := norm(n)
		add(x, b, k-1)
		note(b)
	}
	for x := range next {
		// the position in a string that a range is at
		for _, c := range it.in.alternatives(x.Args[0]) {
			if c.Op == OpRes && c.Name == "range" {
				b, k := norm(it.in.lenOf(c.Args[0]))
				add(x, b, k-1)
				note(b)
			}
		}
	}
	for l := range lens {
		add(nil, l, 0) // 0 - len <= 0
		b := l.Args[0]
		// results of a successful split are never empty etc. are rule facts
		if b.Op == OpSlice && b.Args[1] != nil && b.Args[2] == nil {
			// len(x[lo:]) == len(x)-lo
			if lo, ok := b.Args[1].constInt(); ok {
				base := it.in.lenOf(b.Args[0])
				lb, lk := norm(base)
				add(l, lb, lk-lo)
				add(lb, l, lo-lk)
			}
		}
	}
	// Bellman-Ford from y: dist[x] = min over paths of x-y
	dist := map[*Expr]int64{y: 0}
	for i := 0; i <= len(es); i++ {
		ch := false
		for _, e := range es {
			d, ok := dist[e.from]
			if !ok {
				continue
			}
			if cur, ok := dist[e.to]; !ok || d+e.w < cur {
				dist[e.to] = d + e.w
				ch = true
			}
		}
		if !ch {
			break
		}
	}
	d, ok := dist[x]
	return d, ok
}

// assume adds a fact; false means the state became infeasible.
func (it *Interp) assume(s *State, e *Expr, val bool) bool {
	for e.Op == OpNot {
		e, val = e.Args[0], !val
	}
	if t := it.truth(s, e); t != 0 {
		return (t == 1) == val
	}
	s.facts[e] = val
	if val && e.Op == OpCall && len(e.Args) == 2 && (e.Name == "strings.HasPrefix" || e.Name == "strings.HasSuffix" || e.Name == "strings.Contains") {
		// at least as long as what it contains
		if c, ok := e.Args[1].constStr(); ok && c != "" {
			if f := it.in.lss(it.in.lenOf(e.Args[0]), it.in.intc(int64(len(c)))); it.truth(s, f) == 0 {
				s.facts[f] = false
			}
		}
	}
	if e.Op == OpCall && len(e.Args) == 2 && (e.Name == "strings.Contains" || !val && e.Name == "strings.ContainsAny") {
		// and its position
		if c, ok := e.Args[1].constStr(); ok {
			subs := []string{c}
			if e.Name == "strings.ContainsAny" {
				subs = strings.Split(c, "")
			}
			for _, sub := range subs {
				y := it.in.constOf(constant.MakeString(sub), e.Args[1].Typ)
				fs := []*Expr{it.in.lss(it.indexOf(e.Args[0], y), it.in.intc(0))}
				if e.Name == "strings.ContainsAny" {
					fs = append(fs, it.in.not(it.in.mk(Expr{Op: OpCall, Name: "strings.Contains", Args: []*Expr{e.Args[0], y}, Typ: e.Typ})))
				}
				for _, f := range fs {
					v := !val
					for f.Op == OpNot {
						f, v = f.Args[0], !v
					}
					switch it.truth(s, f) {
					case 0:
						s.facts[f] = v
					case b2i(!v):
						return false
					}
				}
			}
		}
	}
	if !val && e.Op == OpLookupOk {
		// an absent key reads as the zero value
		if m, ok := e.Args[0].Typ.Underlying().(*types.Map); ok {
			l := it.in.mk(Expr{Op: OpLookup, Name: e.Name, Args: e.Args, Typ: m.Elem()})
			f := it.in.eq(l, it.in.zero(l.Typ))
			if _, ok := l.Typ.Underlying().(*types.Slice); ok {
				f = it.in.lss(it.in.lenOf(l), it.in.intc(1))
			}
			switch it.truth(s, f) {
			case -1:
				return false
			case 0:
				s.facts[f] = true
			}
		}
	}
	if it.hooks.Assume != nil {
		return it.hooks.Assume(s, e, val)
	}
	return true
}

// constOfState returns the constant x is known to equal.
func (it *Interp) constOfState(s *State, x *Expr) *Expr {
	if x.Op == OpConst {
		return x
	}
	for f, v := range s.facts {
		if v && f.Op == OpBin && f.Name == "==" && f.Args[0] == x && f.Args[1].Op == OpConst {
			return f.Args[1]
		}
	}
	return nil
}

// ---- memory ----

// root returns the object an address belongs to.
func addrRoot(a *Expr) *Expr {
	for a.Op == OpFieldAddr || a.Op == OpIndexAddr || a.Op == OpMapCell {
		a = a.Args[0]
	}
	return a
}

func (it *Interp) epochOf(s *State, a *Expr) string {
	if len(s.epoch) == 0 {
		return ""
	}
	var parts []string
	seen := map[*Expr]bool{}
	var rec func(e *Expr)
	through := false // past the content of a cell: only what changed all the way down counts
	rec = func(e *Expr) {
		if e == nil || seen[e] {
			return
		}
		seen[e] = true
		if v, ok := s.epoch[e]; ok && (!through || strings.HasSuffix(v, "*")) {
			parts = append(parts, strconv.Itoa(e.ID)+"@"+v)
		}
		switch e.Op {
		case OpFieldAddr, OpIndexAddr, OpMapCell:
			rec(e.Args[0])
		case OpSlice, OpChange, OpIface, OpAssert:
			rec(e.Args[0])
		case OpInit, OpLookup:
			// the object was reached through another one: havoc of the
			// outer object reached it too
			if strings.Contains(deepFlag(s, e.Args[0]), "*") {
				through = true
				rec(e.Args[0])
			}
		}
	}
	rec(a)
	sort.Strings(parts)
	return strings.Join(parts, ",")
}

// deepFlag returns the strongest epoch mark on the chain of a.
func deepFlag(s *State, a *Expr) string {
	for a != nil {
		if v, ok := s.epoch[a]; ok && strings.HasSuffix(v, "*") {
			return v
		}
		switch a.Op {
		case OpFieldAddr, OpIndexAddr, OpMapCell, OpInit, OpLookup, OpSlice, OpChange, OpIface, OpAssert:
			a = a.Args[0]
		default:
			return ""
		}
	}
	return ""
}

func (it *Interp) fieldAddr(base *Expr, name string, t typesType) *Expr {
	return it.in.mk(Expr{Op: OpFieldAddr, Name: name, Args: []*Expr{base}, Typ: t})
}

func (it *Interp) indexAddr(base, idx *Expr, t typesType) *Expr {
	for {
		if base.Op == OpChange {
			base = base.Args[0]
			continue
		}
		if base.Op == OpSlice && !isStringT(base.Typ) {
			if base.Args[1] != nil {
				idx = it.in.bin(token.ADD, base.Args[1], idx, idx.Typ)
			}
			base = base.Args[0]
			continue
		}
		break
	}
	return it.in.mk(Expr{Op: OpIndexAddr, Args: []*Expr{base, idx}, Typ: t})
}

// load reads the cell a of type t.
func (it *Interp) load(s *State, a *Expr, t typesType) *Expr {
	in := it.in
	if isStruct(t) {
		// collect field overrides
		var names []string
		vals := map[string]*Expr{}
		for c := range s.mem {
			if c.Op == OpFieldAddr && c.Args[0] == a {
				names = append(names, c.Name)
				vals[c.Name] = s.mem[c]
			} else if c != a && underAddr(c, a) {
				// nested struct field: load it as a whole
				for c.Args[0] != a {
					c = c.Args[0]
				}
				if c.Op == OpFieldAddr && vals[c.Name] == nil {
					names = append(names, c.Name)
					vals[c.Name] = it.load(s, c, derefT(c.Typ))
				}
			}
		}
		base := s.mem[a]
		if base == nil {
			base = it.loadRaw(s, a, t)
		}
		if len(names) == 0 {
			return base
		}
		sort.Strings(names)
		args := []*Expr{base}
		for _, n := range names {
			args = append(args, vals[n])
		}
		return in.mk(Expr{Op: OpStruct, Names: names, Args: args, Typ: t})
	}
	if arr, ok := t.Underlying().(*types.Array); ok {
		if v := it.loadArray(s, a, arr, t); v != nil {
			return v
		}
	}
	if v, ok := s.mem[a]; ok {
		return v
	}
	return it.loadRaw(s, a, t)
}

// loadArray reads an array some elements of which have cells of their own.
func (it *Interp) loadArray(s *State, a *Expr, arr *types.Array, t typesType) *Expr {
	known, n := true, 0
	name := "mix"
	for _, c := range sortedExprs(s.mem) {
		if c == a || !underAddr(c, a) {
			continue
		}
		n++
		for c.Args[0] != a {
			c = c.Args[0]
		}
		if _, ok := c.Args[1].constInt(); c.Op != OpIndexAddr || !ok {
			known = false
		}
	}
	if n == 0 {
		return nil
	}
	if !known || arr.Len() > 64 {
		return it.in.mk(Expr{Op: OpInit, Args: []*Expr{a}, Name: name + it.epochOf(s, a), Typ: t})
	}
	var es []*Expr
	for i := int64(0); i < arr.Len(); i++ {
		es = append(es, it.load(s, it.indexAddr(a, it.in.intc(i), pointerTo(arr.Elem())), arr.Elem()))
	}
	return it.in.mk(Expr{Op: OpList, Args: es, Typ: t})
}

// arrayElem is the element of an array value.
func (it *Interp) arrayElem(v, idx *Expr, t typesType) *Expr {
	switch v.Op {
	case OpConst:
		return it.in.zero(t)
	case OpList:
		return it.seqElem(v, idx)
	case OpInit:
		return it.in.mk(Expr{Op: OpInit, Args: []*Expr{it.indexAddr(v.Args[0], idx, pointerTo(t))}, Name: v.Name, Typ: t})
	}
	return nil
}

func underAddr(c, a *Expr) bool {
	for c.Op == OpFieldAddr || c.Op == OpIndexAddr {
		c = c.Args[0]
		if c == a {
			return true
		}
	}
	return false
}

func (it *Interp) loadRaw(s *State, a *Expr, t typesType) *Expr {
	in := it.in
	if a.Op == OpFieldAddr {
		if b, ok := s.mem[a.Args[0]]; ok {
			return it.fieldOf(b, a.Name, t)
		}
		if a.Args[0].Op == OpFieldAddr || a.Args[0].Op == OpIndexAddr {
			if st := derefT(a.Args[0].Typ); st != nil && isStruct(st) {
				b := it.loadRaw(s, a.Args[0], st)
				if !(b.Op == OpInit && b.Args[0] == a.Args[0]) {
					return it.fieldOf(b, a.Name, t)
				}
			}
		}
	}
	if a.Op == OpIndexAddr {
		b := a.Args[0]
		if b.Op == OpList {
			if i, ok := a.Args[1].constInt(); ok && i >= 0 && int(i) < len(b.Args) {
				return b.Args[i]
			}
		}
		if b.Op == OpMake && s.epoch[a] == "" && s.epoch[b] == "" {
			// the content was copied from a known list
			if l := s.mem[it.contentAddr(b)]; l != nil && l.Op == OpList {
				exact := true
				for c := range s.mem {
					if c.Op == OpIndexAddr && c.Args[0] == b {
						_, k := c.Args[1].constInt()
						exact = exact && k
					}
				}
				if i, ok := a.Args[1].constInt(); ok && exact && i >= 0 && int(i) < len(l.Args) {
					return l.Args[i]
				}
			}
		}
		// single known element sequences are kept as an index value
		if b.Op == OpAppend || b.Op == OpList {
			if e := it.seqElem(b, a.Args[1]); e != nil {
				return e
			}
		}
		if arr, ok := s.mem[b]; ok && s.epoch[a] == "" && s.epoch[b] == "" && !it.partial(s, a) {
			if e := it.arrayElem(arr, a.Args[1], t); e != nil {
				return e
			}
			return in.mk(Expr{Op: OpIndex, Args: []*Expr{arr, a.Args[1]}, Typ: t})
		}
	}
	ep := it.epochOf(s, a)
	r := addrRoot(a)
	if ep == "" && (r.Op == OpAlloc || r.Op == OpMake) && !it.partial(s, a) {
		return in.zero(t)
	}
	if r.Op == OpGlobal && ep == "" {
		if v := it.globalInit(a); v != nil {
			return v
		}
	}
	return in.mk(Expr{Op: OpInit, Args: []*Expr{a}, Name: ep, Typ: t})
}

// partial reports whether a may have been written through an unknown index.
func (it *Interp) partial(s *State, a *Expr) bool {
	if a.Op != OpIndexAddr {
		return false
	}
	for c := range s.mem {
		if c.Op == OpIndexAddr && c.Args[0] == a.Args[0] {
			_, k1 := c.Args[1].constInt()
			_, k2 := a.Args[1].constInt()
			if !(k1 && k2) {
				return true
			}
		}
	}
	if _, ok := s.mem[it.contentAddr(a.Args[0])]; ok {
		return true
	}
	return false
}

// contentAddr is the cell describing the whole content of a slice.
func (it *Interp) contentAddr(base *Expr) *Expr {
	return it.in.mk(Expr{Op: OpFieldAddr, Name: "[content]", Args: []*Expr{base}})
}

func (it *Interp) seqElem(b, idx *Expr) *Expr {
	i, ok := idx.constInt()
	if !ok {
		return nil
	}
	switch b.Op {
	case OpList:
		if i >= 0 && int(i) < len(b.Args) {
			return b.Args[i]
		}
	case OpAppend:
		n, ok := it.in.lenOf(b.Args[0]).constInt()
		if !ok {
			return nil
		}
		if i < n {
			return it.seqElem(b.Args[0], idx)
		}
		return it.seqElem(b.Args[1], it.in.intc(i-n))
	}
	return nil
}

func (it *Interp) fieldOf(b *Expr, name string, t typesType) *Expr {
	in := it.in
	switch {
	case b.Op == OpStruct:
		for i, n := range b.Names {
			if n == name {
				return b.Args[i+1]
			}
		}
		return it.fieldOf(b.Args[0], name, t)
	case b.isZeroStruct():
		return in.zero(t)
	case b.Op == OpInit:
		// field of the content of an address: content of the field address
		return in.mk(Expr{Op: OpInit, Args: []*Expr{it.fieldAddr(b.Args[0], name, pointerTo(t))}, Name: b.Name, Typ: t})
	}
	return in.mk(Expr{Op: OpField, Name: name, Args: []*Expr{b}, Typ: t})
}

// store writes v to the cell a, killing cells that may alias it.
func (it *Interp) store(s *State, a, v *Expr, tag string) {
	switch a.Op {
	case OpFieldAddr:
		for _, c := range sortedExprs(s.mem) {
			if c != a && c.Op == OpFieldAddr && c.Name == a.Name && c.Args[0] != a.Args[0] && it.mayAlias(s, c.Args[0], a.Args[0]) {
				delete(s.mem, c)
				it.renameEff(s, tag)
				s.mark(c, tag)
			}
		}
	case OpIndexAddr:
		for _, c := range sortedExprs(s.mem) {
			if c == a {
				continue
			}
			if c.Op == OpIndexAddr && c.Args[1] != a.Args[1] && c.Args[0] == a.Args[0] {
				_, k1 := c.Args[1].constInt()
				_, k2 := a.Args[1].constInt()
				if k1 && k2 {
					continue
				}
				if it.truth(s, it.in.eq(c.Args[1], a.Args[1])) == -1 {
					continue
				}
				delete(s.mem, c)
				it.renameEff(s, tag)
				s.mark(c, tag)
				if !k1 {
					// some element of those without a cell may have been written
					s.mark(c.Args[0], tag)
				}
			}
		}
	}
	for c := range s.mem {
		if underAddr(c, a) {
			delete(s.mem, c)
		}
	}
	if v.Op == OpStruct {
		s.mem[a] = v.Args[0]
		for i, n := range v.Names {
			s.mem[it.fieldAddr(a, n, pointerTo(v.Args[i+1].Typ))] = v.Args[i+1]
		}
		return
	}
	s.mem[a] = v
}

func (it *Interp) mayAlias(s *State, a, b *Expr) bool {
	if a == b {
		return true
	}
	ra, rb := addrRoot(a), addrRoot(b)
	if ra.Op == OpAlloc || rb.Op == OpAlloc || ra.Op == OpGlobal || rb.Op == OpGlobal {
		return false
	}
	if a.Typ != nil && b.Typ != nil && typeKey(derefT(a.Typ)) != typeKey(derefT(b.Typ)) {
		return false
	}
	return it.truth(s, it.in.eq(a, b)) != -1
}

// havoc forgets everything reachable from the given value.
func (it *Interp) havoc(s *State, v *Expr, tag string) {
	in := it.in
	it.renameEff(s, tag)
	seen := map[*Expr]bool{}
	var rec func(e *Expr)
	var cells func(root *Expr)
	cells = func(root *Expr) {
		if seen[root] {
			return
		}
		seen[root] = true
		s.epoch[root] = tag + "*"
		for _, c := range sortedExprs(s.mem) {
			if c == root || underObj(c, root) {
				val, ok := s.mem[c]
				if !ok {
					continue
				}
				delete(s.mem, c)
				rec(val)
			}
		}
		// facts about map membership in root
		for f := range s.facts {
			if (f.Op == OpLookupOk) && f.Args[0] == root {
				delete(s.facts, f)
			}
		}
	}
	rec = func(e *Expr) {
		if e == nil {
			return
		}
		switch e.Op {
		case OpIface, OpChange, OpSlice, OpAssert:
			rec(e.Args[0])
			return
		case OpList, OpTuple, OpStruct, OpClosure, OpAppend:
			for _, x := range e.Args {
				rec(x)
			}
			return
		}
		if !refType(e.Typ) {
			return
		}
		switch e.Op {
		case OpAlloc, OpMake, OpParam, OpInit, OpRes, OpSym, OpCall, OpExtract, OpLookup, OpFieldAddr, OpIndexAddr, OpField, OpIndex, OpGlobal:
			cells(e)
		}
	}
	_ = in
	rec(v)
}

// overwrite forgets the elements of the slice v, but not what they refer to.
func (it *Interp) overwrite(s *State, v *Expr, tag string) {
	it.renameEff(s, tag)
	var rec func(e *Expr)
	rec = func(e *Expr) {
		switch e.Op {
		case OpSlice, OpChange:
			rec(e.Args[0])
			return
		case OpAppend:
			rec(e.Args[0])
		}
		s.mark(e, tag)
		for c := range s.mem {
			if underAddr(c, e) {
				delete(s.mem, c)
			}
		}
	}
	rec(v)
}

// underObj reports whether cell c belongs to the object root (directly or
// through the initial content of its cells).
func underObj(c, root *Expr) bool {
	for {
		switch c.Op {
		case OpFieldAddr, OpIndexAddr, OpMapCell, OpSlice, OpChange, OpInit, OpLookup, OpAssert:
			c = c.Args[0]
			if c == root {
				return true
			}
		default:
			return false
		}
	}
}

// renameEff renames the contents that depend on an earlier execution of the
// effect tag ("s12").
func (it *Interp) renameEff(s *State, tag string) {
	if n, err := strconv.Atoi(strings.TrimRight(tag[1:], "*")); err == nil {
		it.rename(s, n)
	}
}

// rename replaces values created earlier at site tag by an older generation.
func (it *Interp) rename(s *State, tag int) {
	found := false
	for _, v := range s.env {
		if v.hasTag(tag) {
			found = true
			break
		}
	}
	if !found {
		for c, v := range s.mem {
			if c.hasTag(tag) || v.hasTag(tag) {
				found = true
				break
			}
		}
	}
	if !found {
		for _, l := range s.lists {
			for _, v := range l {
				if v != nil && v.hasTag(tag) {
					found = true
				}
			}
		}
	}
	for _, v := range s.ghost {
		if v.hasTag(tag) {
			found = true
		}
	}
	for f := range s.facts {
		if f.hasTag(tag) {
			found = true
			break
		}
	}
	if !found {
		return
	}
	it.retag(s, it.oldOf, tag)
}

// oldOf is the value standing for an earlier generation of x.
func (it *Interp) oldOf(x *Expr) *Expr {
	if x.Op == OpSym && strings.HasPrefix(x.Name, "old:") {
		return x
	}
	o := it.in.mk(Expr{Op: OpSym, Name: "old:" + strconv.Itoa(x.ID), Typ: x.Typ, Pos: x.Pos})
	it.in.addCand(o, x)
	return o
}

// retag rewrites every value of s created at one of the tags with f.
func (it *Interp) retag(s *State, f func(*Expr) *Expr, tags ...int) {
	has := func(e *Expr) bool {
		for _, t := range tags {
			if e.hasTag(t) {
				return true
			}
		}
		return false
	}
	owns := func(e *Expr) bool {
		for _, t := range tags {
			if e.owns(t) {
				return true
			}
		}
		return false
	}
	memo := map[*Expr]*Expr{}
	var sub func(e *Expr) *Expr
	sub = func(e *Expr) *Expr {
		if e == nil || !has(e) {
			return e
		}
		if v, ok := memo[e]; ok {
			return v
		}
		var r *Expr
		if owns(e) {
			r = f(e)
		} else {
			args := make([]*Expr, len(e.Args))
			for i, a := range e.Args {
				args[i] = sub(a)
			}
			r = it.in.rebuild(e, args)
		}
		memo[e] = r
		return r
	}
	for k, v := range s.env {
		if has(v) {
			s.env[k] = sub(v)
		}
	}
	nm := map[*Expr]*Expr{}
	var several []*Expr // cells of earlier generations that do not all hold the same
	for _, c := range sortedExprs(s.mem) {
		a, v := sub(c), sub(s.mem[c])
		if o, ok := nm[a]; ok && o != v {
			several = append(several, a)
		}
		nm[a] = v
	}
	for _, a := range several {
		delete(nm, a)
	}
	s.mem = nm
	ne := map[*Expr]string{}
	for k, v := range s.epoch {
		ne[sub(k)] = v
	}
	s.epoch = ne
	for _, a := range several {
		s.mark(a, "g"+strconv.Itoa(tags[0]))
	}
	// An earlier generation may denote several values: keep what holds for all.
	isOld := func(e *Expr) bool {
		for _, r := range memo {
			if r.Op == OpSym && r.Tag == 0 && it.containsShallow(e, r) {
				return true
			}
		}
		return false
	}
	hadOld := false
	for f := range s.facts {
		if !has(f) && isOld(f) {
			hadOld = true
		}
	}
	nf := map[*Expr]bool{}
	for f, v := range s.facts {
		if !has(f) && !(hadOld && isOld(f)) {
			nf[f] = v
		}
	}
	for f, v := range s.facts {
		if !has(f) {
			continue
		}
		g := sub(f)
		if g.Op == OpConst {
			continue
		}
		for g.Op == OpNot {
			g, v = g.Args[0], !v
		}
		if hadOld {
			if ov, ok := s.facts[g]; !ok || ov != v {
				continue
			}
		}
		nf[g] = v
	}
	s.facts = nf
	for k, l := range s.lists {
		n := make([]*Expr, len(l))
		for i, v := range l {
			n[i] = sub(v)
		}
		s.lists[k] = n
	}
	for k, v := range s.ghost {
		if has(v) {
			s.ghost[k] = sub(v)
		}
	}
	if s.panicking != nil {
		s.panicking = sub(s.panicking)
	}
	for k, ds := range s.defers {
		n := make([]deferred, len(ds))
		for i, d := range ds {
			d.fn = sub(d.fn)
			a := make([]*Expr, len(d.args))
			for j := range d.args {
				a[j] = sub(d.args[j])
			}
			d.args = a
			n[i] = d
		}
		s.defers[k] = n
	}
}

func (it *Interp) containsShallow(e, x *Expr) bool {
	if e == x {
		return true
	}
	for _, a := range e.Args {
		if a != nil && it.containsShallow(a, x) {
			return true
		}
	}
	return false
}
