package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Op is the kind of an abstract value.
type Op int

const (
	OpConst     Op = iota // constant, nil or zero value
	OpParam               // parameter of the analysed root
	OpSym                 // opaque value (widened at a loop head, older generation of a site, unknown)
	OpRes                 // result of an opaque call at a site; Name = callee, Args = arguments
	OpAlloc               // address of an object allocated at a site
	OpMake                // map, slice or channel made at a site
	OpGlobal              // address of a package-level variable
	OpFunc                // function
	OpClosure             // closure, Args = bindings
	OpFieldAddr           // &Args[0].Name
	OpIndexAddr           // &Args[0][Args[1]]
	OpField               // Args[0].Name (struct value)
	OpIndex               // Args[0][Args[1]] (array value or string)
	OpInit                // content of address Args[0] in epoch Name
	OpBin                 // Name = operator
	OpNot                 // !Args[0]
	OpNeg                 // -x, ^x
	OpCall                // result of a pure function; Name = callee
	OpExtract             // component Idx of a tuple
	OpLookup              // map element, Name = epoch
	OpLookupOk            // map membership
	OpAssert              // x.(T)
	OpAssertOk            // x is T
	OpConv                // T(x)
	OpChange              // x with a different named type
	OpIface               // x stored in an interface
	OpSlice               // x[lo:hi:max], absent bounds are nil
	OpAppend              // append(a, b...)
	OpList                // slice of known elements
	OpTuple               // results of an inlined call
	OpStruct              // struct value Args[0] with fields Names overridden by Args[1:]
	OpMapCell             // address of a map entry
	OpLen                 // len(x)
	OpCap
)

// Expr is an interned abstract value; equal values are the same pointer.
type Expr struct {
	ID    int
	Op    Op
	Name  string
	Names []string
	Typ   types.Type
	Args  []*Expr
	Const constant.Value
	Fn    *ssa.Function
	Glob  *ssa.Global
	Tag   int // creation site (OpSym, OpRes, OpAlloc, OpMake)
	Tags  []int
	Pos   token.Pos
}

type interner struct {
	m      map[string]*Expr
	byID   []*Expr
	types  map[string]int
	cands  map[int]map[int]bool // widened or renamed symbol -> values it stands for
	siteNo map[siteKey]int
	sites  []siteKey
}

type siteKey struct {
	frame int
	instr ssa.Instruction
	kind  string
}

func newInterner() *interner {
	return &interner{m: map[string]*Expr{}, cands: map[int]map[int]bool{}, types: map[string]int{}, siteNo: map[siteKey]int{}}
}

func typeKey(t types.Type) string {
	if t == nil {
		return "?"
	}
	return types.TypeString(t, nil)
}

func (in *interner) mk(e Expr) *Expr {
	var sb strings.Builder
	sb.WriteString(strconv.Itoa(int(e.Op)))
	sb.WriteByte('|')
	sb.WriteString(e.Name)
	for _, n := range e.Names {
		sb.WriteByte(',')
		sb.WriteString(n)
	}
	sb.WriteByte('|')
	if e.Tag != 0 {
		sb.WriteString("t" + strconv.Itoa(e.Tag))
	}
	for _, a := range e.Args {
		if a == nil {
			sb.WriteString(";_")
		} else {
			sb.WriteByte(';')
			sb.WriteString(strconv.Itoa(a.ID))
		}
	}
	sb.WriteByte('|')
	switch e.Op {
	case OpConst:
		if e.Const != nil {
			sb.WriteString(e.Const.ExactString())
			sb.WriteString(":" + strconv.Itoa(int(e.Const.Kind())))
		} else {
			sb.WriteString("zero:" + zeroKind(e.Typ))
		}
	case OpAssert, OpAssertOk, OpConv, OpChange, OpInit:
		sb.WriteString(typeKey(e.Typ))
		if e.Op == OpAssertOk {
			sb.WriteString("~" + e.Name)
		}
	case OpFunc, OpClosure:
		sb.WriteString(fmt.Sprintf("%p", e.Fn))
	case OpGlobal:
		sb.WriteString(fmt.Sprintf("%p", e.Glob))
	}
	k := sb.String()
	if x, ok := in.m[k]; ok {
		return x
	}
	x := new(Expr)
	*x = e
	x.ID = len(in.byID) + 1
	set := map[int]bool{}
	if e.Tag != 0 {
		set[e.Tag] = true
	}
	for _, t := range nameTags(&e) {
		set[t] = true
	}
	for _, a := range e.Args {
		if a == nil {
			continue
		}
		for _, t := range a.Tags {
			set[t] = true
		}
	}
	for t := range set {
		x.Tags = append(x.Tags, t)
	}
	sort.Ints(x.Tags)
	in.m[k] = x
	in.byID = append(in.byID, x)
	return x
}

// nameTags lists the sites whose effects an initial content depends on.
func nameTags(e *Expr) []int {
	switch e.Op {
	case OpInit, OpLookup, OpLookupOk, OpLen:
	default:
		return nil
	}
	if e.Name == "" {
		return nil
	}
	var out []int
	for _, part := range strings.Split(e.Name, ",") {
		_, t, ok := strings.Cut(part, "@")
		if !ok {
			continue
		}
		t = strings.TrimRight(t, "*")
		if len(t) > 1 {
			if n, err := strconv.Atoi(t[1:]); err == nil {
				out = append(out, n)
			}
		}
	}
	return out
}

// owns reports whether e itself was created at tag.
func (e *Expr) owns(tag int) bool {
	if e.Tag == tag {
		return true
	}
	for _, t := range nameTags(e) {
		if t == tag {
			return true
		}
	}
	return false
}

// zeroKind identifies nil/zero constants: all nils are one value.
func zeroKind(t types.Type) string {
	if t == nil {
		return "nil"
	}
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Map, *types.Chan, *types.Signature, *types.Interface:
		return "nil"
	}
	return typeKey(t)
}

func (e *Expr) hasTag(t int) bool {
	i := sort.SearchInts(e.Tags, t)
	return i < len(e.Tags) && e.Tags[i] == t
}

func (in *interner) site(frame int, instr ssa.Instruction, kind string) int {
	k := siteKey{frame, instr, kind}
	if n, ok := in.siteNo[k]; ok {
		return n
	}
	in.sites = append(in.sites, k)
	n := len(in.sites)
	in.siteNo[k] = n
	return n
}

func (in *interner) constOf(v constant.Value, t types.Type) *Expr {
	if v == nil {
		return in.zero(t)
	}
	if b, ok := t.Underlying().(*types.Basic); ok {
		switch {
		case b.Info()&types.IsInteger != 0:
			v = constant.ToInt(v)
		case b.Info()&types.IsFloat != 0:
			v = constant.ToFloat(v)
		}
	}
	return in.mk(Expr{Op: OpConst, Const: v, Typ: t})
}

func (in *interner) intc(n int64) *Expr {
	return in.mk(Expr{Op: OpConst, Const: constant.MakeInt64(n), Typ: types.Typ[types.Int]})
}
func (in *interner) boolc(b bool) *Expr {
	return in.mk(Expr{Op: OpConst, Const: constant.MakeBool(b), Typ: types.Typ[types.Bool]})
}

// zero returns the zero value of t.
func (in *interner) zero(t types.Type) *Expr {
	if t != nil {
		if b, ok := t.Underlying().(*types.Basic); ok {
			switch {
			case b.Info()&types.IsBoolean != 0:
				return in.mk(Expr{Op: OpConst, Const: constant.MakeBool(false), Typ: t})
			case b.Info()&types.IsString != 0:
				return in.mk(Expr{Op: OpConst, Const: constant.MakeString(""), Typ: t})
			case b.Info()&types.IsInteger != 0:
				return in.mk(Expr{Op: OpConst, Const: constant.MakeInt64(0), Typ: t})
			case b.Info()&types.IsFloat != 0:
				return in.mk(Expr{Op: OpConst, Const: constant.ToFloat(constant.MakeInt64(0)), Typ: t})
			}
		}
	}
	return in.mk(Expr{Op: OpConst, Typ: t})
}

func (e *Expr) isNil() bool {
	if e == nil || e.Op != OpConst || e.Const != nil {
		return false
	}
	return zeroKind(e.Typ) == "nil"
}

func (e *Expr) isZeroStruct() bool {
	return e != nil && e.Op == OpConst && e.Const == nil && zeroKind(e.Typ) != "nil"
}

func (e *Expr) constInt() (int64, bool) {
	if e == nil || e.Op != OpConst || e.Const == nil || e.Const.Kind() != constant.Int {
		return 0, false
	}
	return constant.Int64Val(e.Const)
}

func (e *Expr) constStr() (string, bool) {
	if e == nil || e.Op != OpConst || e.Const == nil || e.Const.Kind() != constant.String {
		return "", false
	}
	return constant.StringVal(e.Const), true
}

func (e *Expr) constBool() (bool, bool) {
	if e == nil || e.Op != OpConst || e.Const == nil || e.Const.Kind() != constant.Bool {
		return false, false
	}
	return constant.BoolVal(e.Const), true
}

// strip removes interface boxing and type changes.
func strip(e *Expr) *Expr {
	for e != nil && (e.Op == OpIface || e.Op == OpChange) {
		e = e.Args[0]
	}
	return e
}

// stripConv additionally removes conversions.
func stripConv(e *Expr) *Expr {
	for e != nil && (e.Op == OpIface || e.Op == OpChange || e.Op == OpConv) {
		e = e.Args[0]
	}
	return e
}

func isInteger(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func isStringT(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func (in *interner) not(e *Expr) *Expr {
	if b, ok := e.constBool(); ok {
		return in.boolc(!b)
	}
	if e.Op == OpNot {
		return e.Args[0]
	}
	return in.mk(Expr{Op: OpNot, Args: []*Expr{e}, Typ: e.Typ})
}

func (in *interner) lenOf(x *Expr) *Expr {
	x = stripChange(x)
	switch x.Op {
	case OpConst:
		if s, ok := x.constStr(); ok {
			return in.intc(int64(len(s)))
		}
		if x.isNil() {
			return in.intc(0)
		}
	case OpCall:
		if (x.Name == "net/textproto.CanonicalMIMEHeaderKey" || x.Name == "net/http.CanonicalHeaderKey") && len(x.Args) == 1 {
			return in.lenOf(x.Args[0])
		}
	case OpList:
		return in.intc(int64(len(x.Args)))
	case OpMake:
		if len(x.Args) > 0 && x.Args[0] != nil {
			return x.Args[0]
		}
	case OpSlice:
		if x.Args[1] == nil && x.Args[2] != nil {
			return x.Args[2]
		}
		if x.Args[1] == nil && x.Args[2] == nil {
			if p, ok := x.Args[0].Typ.Underlying().(*types.Pointer); ok {
				if a, ok := p.Elem().Underlying().(*types.Array); ok {
					return in.intc(a.Len())
				}
			}
			return in.lenOf(x.Args[0])
		}
		if x.Args[1] != nil && x.Args[2] != nil {
			lo, l := split(x.Args[1])
			hi, h := split(x.Args[2])
			if c, ok := lo.constInt(); ok {
				lo, l = nil, l+c
			}
			if c, ok := hi.constInt(); ok {
				hi, h = nil, h+c
			}
			if lo == hi && h >= l {
				return in.intc(h - l)
			}
		}
	case OpAppend:
		a, b := in.lenOf(x.Args[0]), in.lenOf(x.Args[1])
		return in.bin(token.ADD, a, b, types.Typ[types.Int])
	case OpConv:
		if isStringT(x.Args[0].Typ) || isStringT(x.Typ) {
			return in.lenOf(x.Args[0])
		}
	}
	return in.mk(Expr{Op: OpLen, Args: []*Expr{x}, Typ: types.Typ[types.Int]})
}

func stripChange(e *Expr) *Expr {
	for e.Op == OpChange {
		e = e.Args[0]
	}
	return e
}

func (in *interner) eq(a, b *Expr) *Expr {
	return in.bin(token.EQL, a, b, types.Typ[types.Bool])
}

// lss returns a<b in canonical form.
func (in *interner) lss(a, b *Expr) *Expr {
	return in.bin(token.LSS, a, b, types.Typ[types.Bool])
}

// split writes x as y+c for integers.
func split(x *Expr) (*Expr, int64) {
	if x.Op == OpBin && x.Name == "+" && isInteger(x.Typ) {
		if c, ok := x.Args[1].constInt(); ok {
			return x.Args[0], c
		}
	}
	return x, 0
}

func emptyStruct(t types.Type) bool {
	s, ok := t.Underlying().(*types.Struct)
	return ok && s.NumFields() == 0
}

func (in *interner) bin(op token.Token, a, b *Expr, t types.Type) *Expr {
	mk := func(op string, a, b *Expr) *Expr {
		return in.mk(Expr{Op: OpBin, Name: op, Args: []*Expr{a, b}, Typ: t})
	}
	// constant folding
	if a.Op == OpConst && b.Op == OpConst && a.Const != nil && b.Const != nil {
		switch op {
		case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
			if comparableConst(a.Const, b.Const) {
				return in.boolc(constant.Compare(a.Const, op, b.Const))
			}
		case token.ADD, token.SUB, token.MUL, token.AND, token.OR, token.XOR:
			if comparableConst(a.Const, b.Const) && a.Const.Kind() != constant.Bool {
				return in.constOf(constant.BinaryOp(a.Const, op, b.Const), t)
			}
		}
	}
	switch op {
	case token.NEQ:
		return in.not(in.bin(token.EQL, a, b, t))
	case token.GTR:
		return in.bin(token.LSS, b, a, t)
	case token.LEQ:
		return in.not(in.bin(token.LSS, b, a, t))
	case token.GEQ:
		return in.not(in.bin(token.LSS, a, b, t))
	case token.EQL:
		if a == b && !isFloat(a.Typ) && !(a.Op == OpSym && strings.HasPrefix(a.Name, "old:")) {
			return in.boolc(true)
		}
		if a.isNil() && b.isNil() {
			return in.boolc(true)
		}
		if a.Op == OpIface && b.Op == OpIface && a.Args[0].Typ != nil && b.Args[0].Typ != nil {
			ta, tb := a.Args[0].Typ, b.Args[0].Typ
			if !types.IsInterface(ta) && !types.IsInterface(tb) {
				if !types.Identical(ta, tb) {
					return in.boolc(false)
				}
				if emptyStruct(ta) {
					return in.boolc(true)
				}
			}
		} else if a.Typ != nil && b.Typ != nil && emptyStruct(a.Typ) && types.Identical(a.Typ, b.Typ) {
			return in.boolc(true)
		}
		if a.Op == OpConst && b.Op != OpConst {
			a, b = b, a
		}
		if v, ok := b.constBool(); ok {
			if v {
				return a
			}
			return in.not(a)
		}
		if s, ok := b.constStr(); ok && s == "" {
			return in.bin(token.EQL, in.lenOf(a), in.intc(0), t)
		}
		if isInteger(a.Typ) {
			if c, ok := b.constInt(); ok {
				x, k := split(a)
				if k != 0 {
					return in.bin(token.EQL, x, in.mk(Expr{Op: OpConst, Const: constant.MakeInt64(c - k), Typ: b.Typ}), t)
				}
				if a.Op == OpLen {
					if c == 0 {
						return in.bin(token.LSS, a, in.intc(1), t)
					}
					if c < 0 {
						return in.boolc(false)
					}
				}
			} else {
				x, k := split(a)
				y, l := split(b)
				if x == y {
					return in.boolc(k == l)
				}
				// only the older side keeps the offset
				if k != 0 || l != 0 {
					if x.ID > y.ID {
						x, y, k, l = y, x, l, k
					}
					return mk("==", in.addc(x, k-l), y)
				}
			}
		}
		if b.Op != OpConst && a.ID > b.ID {
			a, b = b, a
		}
		return mk("==", a, b)
	case token.LSS:
		if isInteger(a.Typ) && isInteger(b.Typ) {
			if c, ok := b.constInt(); ok {
				x, k := split(a)
				if k != 0 {
					return in.bin(token.LSS, x, in.intc(c-k), t)
				}
				if a.Op == OpLen && c <= 0 {
					return in.boolc(false)
				}
				return mk("<", a, in.intc(c))
			}
			if c, ok := a.constInt(); ok {
				// c < b  <=>  !(b < c+1)
				return in.not(in.bin(token.LSS, b, in.intc(c+1), t))
			}
			x, k := split(a)
			y, l := split(b)
			if x == y {
				return in.boolc(k < l)
			}
			if l != 0 {
				return in.bin(token.LSS, in.addc(x, k-l), y, t)
			}
			// x+k < y
			return mk("<", in.addc(x, k), y)
		}
		return mk("<", a, b)
	case token.ADD:
		if isInteger(t) {
			if c, ok := b.constInt(); ok {
				x, k := split(a)
				return in.addcT(x, k+c, t)
			}
			if c, ok := a.constInt(); ok {
				x, k := split(b)
				return in.addcT(x, k+c, t)
			}
		}
		if isStringT(t) {
			if s, ok := a.constStr(); ok && s == "" {
				return b
			}
			if s, ok := b.constStr(); ok && s == "" {
				return a
			}
			// merge constants: (x + "a") + "b"
			if sb, ok := b.constStr(); ok && a.Op == OpBin && a.Name == "+" {
				if sa, ok := a.Args[1].constStr(); ok {
					return mk("+", a.Args[0], in.constOf(constant.MakeString(sa+sb), t))
				}
			}
			// right-nested concatenations become left-nested
			if b.Op == OpBin && b.Name == "+" && isStringT(b.Typ) {
				return in.bin(token.ADD, in.bin(token.ADD, a, b.Args[0], t), b.Args[1], t)
			}
		}
		return mk("+", a, b)
	case token.SUB:
		if isInteger(t) {
			if c, ok := b.constInt(); ok {
				x, k := split(a)
				return in.addcT(x, k-c, t)
			}
			x, k := split(a)
			y, l := split(b)
			if x == y {
				return in.constOf(constant.MakeInt64(k-l), t)
			}
		}
		return mk("-", a, b)
	}
	return mk(op.String(), a, b)
}

func (in *interner) addc(x *Expr, c int64) *Expr { return in.addcT(x, c, x.Typ) }

func (in *interner) addcT(x *Expr, c int64, t types.Type) *Expr {
	if c == 0 {
		return x
	}
	if k, ok := x.constInt(); ok {
		return in.constOf(constant.MakeInt64(k+c), t)
	}
	y, k := split(x)
	if k != 0 {
		return in.addcT(y, k+c, t)
	}
	return in.mk(Expr{Op: OpBin, Name: "+", Args: []*Expr{x, in.intc(c)}, Typ: t})
}

func isFloat(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

func comparableConst(a, b constant.Value) bool {
	num := func(v constant.Value) bool { return v.Kind() == constant.Int || v.Kind() == constant.Float }
	return a.Kind() == b.Kind() || num(a) && num(b)
}

func (in *interner) addCand(sym, v *Expr) {
	m := in.cands[sym.ID]
	if m == nil {
		m = map[int]bool{}
		in.cands[sym.ID] = m
	}
	if v != nil && v != sym {
		m[v.ID] = true
	}
}

// walk visits e and everything it is built from, through the candidate values
// of widened symbols; visit returns false to prune.
func (in *interner) walk(e *Expr, visit func(*Expr) bool) {
	seen := map[int]bool{}
	var rec func(e *Expr)
	rec = func(e *Expr) {
		if e == nil || seen[e.ID] {
			return
		}
		seen[e.ID] = true
		if !visit(e) {
			return
		}
		for _, a := range e.Args {
			rec(a)
		}
		var ids []int
		for c := range in.cands[e.ID] {
			ids = append(ids, c)
		}
		sort.Ints(ids)
		for _, c := range ids {
			rec(in.byID[c-1])
		}
	}
	rec(e)
}

func (in *interner) mentions(e *Expr, pred func(*Expr) bool) bool {
	found := false
	in.walk(e, func(x *Expr) bool {
		if pred(x) {
			found = true
		}
		return !found
	})
	return found
}

// contains reports whether x occurs in e (through candidates).
func (in *interner) contains(e, x *Expr) bool {
	return in.mentions(e, func(y *Expr) bool { return y == x })
}

// alternatives expands widened symbols to the set of non-widened values they
// stand for.
func (in *interner) alternatives(e *Expr) []*Expr {
	var out []*Expr
	seen := map[int]bool{}
	var rec func(e *Expr)
	rec = func(e *Expr) {
		if seen[e.ID] {
			return
		}
		seen[e.ID] = true
		if c := in.cands[e.ID]; e.Op == OpSym && len(c) > 0 {
			var ids []int
			for k := range c {
				ids = append(ids, k)
			}
			sort.Ints(ids)
			for _, k := range ids {
				rec(in.byID[k-1])
			}
			return
		}
		out = append(out, e)
	}
	rec(e)
	return out
}

// subst replaces old by new in e.
func (in *interner) subst(e, old, nw *Expr) *Expr {
	if e == old {
		return nw
	}
	if len(e.Args) == 0 {
		return e
	}
	changed := false
	args := make([]*Expr, len(e.Args))
	for i, a := range e.Args {
		if a == nil {
			continue
		}
		args[i] = in.subst(a, old, nw)
		if args[i] != a {
			changed = true
		}
	}
	if !changed {
		return e
	}
	return in.rebuild(e, args)
}

func (in *interner) rebuild(e *Expr, args []*Expr) *Expr {
	switch e.Op {
	case OpNot:
		return in.not(args[0])
	case OpLen:
		return in.lenOf(args[0])
	case OpBin:
		switch e.Name {
		case "==":
			return in.bin(token.EQL, args[0], args[1], e.Typ)
		case "<":
			return in.bin(token.LSS, args[0], args[1], e.Typ)
		case "+":
			return in.bin(token.ADD, args[0], args[1], e.Typ)
		}
	}
	n := *e
	n.ID = 0
	n.Tags = nil
	n.Args = args
	return in.mk(n)
}

// String renders e for diagnostics.
func (e *Expr) String() string { return e.str(6) }

func (e *Expr) str(d int) string {
	if e == nil {
		return "_"
	}
	if d == 0 {
		return "…"
	}
	a := func(i int) string {
		if i >= len(e.Args) {
			return "?"
		}
		return e.Args[i].str(d - 1)
	}
	all := func() string {
		var s []string
		for i := range e.Args {
			s = append(s, a(i))
		}
		return strings.Join(s, ", ")
	}
	switch e.Op {
	case OpConst:
		if e.Const != nil {
			return e.Const.ExactString()
		}
		if e.isNil() {
			return "nil"
		}
		return "zero(" + shortType(e.Typ) + ")"
	case OpParam:
		return e.Name
	case OpSym:
		return e.Name
	case OpRes:
		return shortName(e.Name) + "(" + all() + ")"
	case OpAlloc:
		return "new:" + shortType(e.Typ)
	case OpMake:
		return "make:" + shortType(e.Typ)
	case OpGlobal:
		return "&" + e.Glob.Name()
	case OpFunc, OpClosure:
		return e.Fn.Name()
	case OpFieldAddr:
		return "&" + a(0) + "." + e.Name
	case OpField:
		return a(0) + "." + e.Name
	case OpIndexAddr:
		return "&" + a(0) + "[" + a(1) + "]"
	case OpIndex:
		return a(0) + "[" + a(1) + "]"
	case OpInit:
		s := a(0)
		if strings.HasPrefix(s, "&") {
			return s[1:]
		}
		return "*" + s
	case OpBin:
		return "(" + a(0) + " " + e.Name + " " + a(1) + ")"
	case OpNot:
		return "!" + a(0)
	case OpNeg:
		return e.Name + a(0)
	case OpCall:
		return shortName(e.Name) + "(" + all() + ")"
	case OpExtract:
		return a(0) + "#" + e.Name
	case OpLookup:
		return a(0) + "[" + a(1) + "]"
	case OpLookupOk:
		return "has(" + a(0) + "," + a(1) + ")"
	case OpAssert:
		return a(0) + ".(" + shortType(e.Typ) + ")"
	case OpAssertOk:
		return "is(" + a(0) + "," + e.Name + ")"
	case OpConv:
		return shortType(e.Typ) + "(" + a(0) + ")"
	case OpIface, OpChange:
		return a(0)
	case OpSlice:
		return a(0) + "[" + a(1) + ":" + a(2) + "]"
	case OpAppend:
		return "append(" + all() + ")"
	case OpList:
		return "[" + all() + "]"
	case OpTuple:
		return "<" + all() + ">"
	case OpStruct:
		return "struct{" + all() + "}"
	case OpLen:
		return "len(" + a(0) + ")"
	case OpMapCell:
		return "&" + a(0) + "[" + a(1) + "]"
	}
	return fmt.Sprintf("op%d(%s)", e.Op, all())
}

func shortName(s string) string {
	if i := strings.LastIndex(s, "/"); i >= 0 {
		pre := ""
		if j := strings.IndexAny(s, "("); j == 0 {
			pre = "("
			if strings.HasPrefix(s, "(*") {
				pre = "(*"
			}
		}
		return pre + s[i+1:]
	}
	return s
}

func shortType(t types.Type) string {
	if t == nil {
		return "?"
	}
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

func fmtInt(n int) string { return strconv.Itoa(n) }
