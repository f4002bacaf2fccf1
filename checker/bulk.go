package main

import (
	"go/constant"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Element-by-element loops: a loop that goes through a list from its first to
// its last element and does nothing but append each element to another list,
// or assign it to the same place of another list, possibly converted by a
// function the rule names, has the effect of one append or copy.

// bulkElem is what a loop body knows of a value.
type bulkElem struct {
	elem bool // the current element
	conv string
	arr  *ssa.Alloc // one-element argument list
	acc  *bulkAcc
	idx  bool
}

// bulkAcc is a list the loop builds.
type bulkAcc struct {
	phi   *ssa.Phi
	base  ssa.Value // field address, when kept in memory
	field int
	conv  string
	done  bool
	next  ssa.Value // value after the iteration
	store *ssa.Store
	call  *ssa.Call
	dst   ssa.Value // list assigned by index
}

func (it *Interp) bulk(fr *Frame, head *ssa.BasicBlock, s *State) bool {
	if it.bulkConv == nil || len(head.Preds) != 2 {
		return false
	}
	iff, ok := head.Instrs[len(head.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	// the blocks of the iteration, one after the other
	body := []*ssa.BasicBlock{}
	inBody := map[*ssa.BasicBlock]bool{head: true}
	for b := head.Succs[0]; b != head; b = b.Succs[0] {
		if inBody[b] || len(b.Succs) != 1 || len(b.Preds) != 1 {
			return false
		}
		inBody[b] = true
		body = append(body, b)
	}
	if len(body) == 0 || inBody[head.Succs[1]] {
		return false
	}
	last := body[len(body)-1]
	// the counter
	var counter *ssa.Phi
	var accs []*bulkAcc
	edge := func(p *ssa.Phi, back bool) ssa.Value {
		for i, q := range head.Preds {
			if (q == last) == back {
				return p.Edges[i]
			}
		}
		return nil
	}
	isOne := func(v ssa.Value) bool {
		c, ok := v.(*ssa.Const)
		if !ok || c.Value == nil || c.Value.Kind() != constant.Int {
			return false
		}
		n, ok := constant.Int64Val(c.Value)
		return ok && n == 1
	}
	succ := func(v ssa.Value, p *ssa.Phi) bool {
		b, ok := v.(*ssa.BinOp)
		return ok && b.Op == token.ADD && b.X == p && isOne(b.Y)
	}
	for _, in := range head.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		switch {
		case isInteger(p.Type()) && counter == nil && succ(edge(p, true), p):
			counter = p
		default:
			if _, ok := p.Type().Underlying().(*types.Slice); !ok {
				return false
			}
			accs = append(accs, &bulkAcc{phi: p})
		}
	}
	if counter == nil {
		return false
	}
	n0, ok := s.env[envKey{fr.id, counter}].constInt()
	if !ok || n0 != 0 && n0 != -1 {
		return false
	}
	isIdx := func(v ssa.Value) bool {
		if n0 == 0 {
			return v == counter
		}
		return succ(v, counter)
	}
	outside := func(v ssa.Value) bool {
		i, ok := v.(ssa.Instruction)
		return !ok || !inBody[i.Block()]
	}
	// loads of fields nothing in the loop stores to
	stored := map[int]bool{}
	for _, b := range body {
		for _, in := range b.Instrs {
			if st, ok := in.(*ssa.Store); ok {
				if fa, ok := st.Addr.(*ssa.FieldAddr); ok {
					stored[fa.Field] = true
				}
			}
		}
	}
	field := func(v ssa.Value) (*ssa.FieldAddr, bool) {
		u, ok := v.(*ssa.UnOp)
		if !ok || u.Op != token.MUL {
			return nil, false
		}
		fa, ok := u.X.(*ssa.FieldAddr)
		if !ok || !outside(fa.X) {
			return nil, false
		}
		return fa, true
	}
	// the value of something that stays the same in the loop
	value := func(v ssa.Value) *Expr {
		if outside(v) {
			return it.val(s, fr, v)
		}
		if fa, ok := field(v); ok && !stored[fa.Field] {
			st := derefT(fa.X.Type()).Underlying().(*types.Struct)
			f := st.Field(fa.Field)
			return it.load(s, it.fieldAddr(it.val(s, fr, fa.X), f.Name(), pointerTo(f.Type())), f.Type())
		}
		return nil
	}
	// the condition: counter below the length of a list
	cond, ok := iff.Cond.(*ssa.BinOp)
	if !ok || cond.Op != token.LSS || !isIdx(cond.X) {
		return false
	}
	length := value(cond.Y)
	if length == nil {
		if c, ok := cond.Y.(*ssa.Call); ok {
			if b, ok := c.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
				if l := value(c.Call.Args[0]); l != nil {
					length = it.in.lenOf(l)
				}
			}
		}
	}
	if length == nil {
		return false
	}
	if _, ok := length.constInt(); ok {
		return false // iterations stay apart
	}
	var list *Expr
	vals := map[ssa.Value]bulkElem{}
	for _, a := range accs {
		vals[a.phi] = bulkElem{acc: a}
	}
	arrays := map[*ssa.Alloc]bulkElem{}
	elemAddr := map[ssa.Value]bool{}
	argAddr := map[ssa.Value]*ssa.Alloc{}
	cells := map[[2]any]*bulkAcc{}
	blocks := append([]*ssa.BasicBlock{head}, body...)
	for _, b := range blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Phi, *ssa.Jump, *ssa.DebugRef, *ssa.If:
			case *ssa.BinOp:
				if x != cond && !succ(x, counter) {
					return false
				}
			case *ssa.FieldAddr:
				if !outside(x.X) {
					return false
				}
			case *ssa.Alloc:
				arr, ok := derefT(x.Type()).Underlying().(*types.Array)
				if !ok || arr.Len() != 1 {
					return false
				}
				arrays[x] = bulkElem{}
			case *ssa.IndexAddr:
				if a, ok := x.X.(*ssa.Alloc); ok && !outside(a) {
					argAddr[x] = a
					continue
				}
				if !isIdx(x.Index) {
					return false
				}
				l := value(x.X)
				if l == nil {
					return false
				}
				// read from the list, or assigned
				only := true
				for _, u := range *x.Referrers() {
					if st, ok := u.(*ssa.Store); ok && st.Addr == x {
						only = false
					}
				}
				if only {
					if list != nil && list != l {
						return false
					}
					list = l
					elemAddr[x] = true
				}
			case *ssa.UnOp:
				if x.Op != token.MUL {
					return false
				}
				if elemAddr[x.X] {
					vals[x] = bulkElem{elem: true}
					continue
				}
				fa, ok := field(x)
				if !ok {
					return false
				}
				if !stored[fa.Field] {
					continue
				}
				// a list kept in memory
				k := [2]any{fa.X, fa.Field}
				a := cells[k]
				if a == nil {
					a = &bulkAcc{base: fa.X, field: fa.Field}
					cells[k] = a
					accs = append(accs, a)
				}
				if a.done {
					return false
				}
				vals[x] = bulkElem{acc: a}
			case *ssa.MakeInterface:
				e, ok := vals[x.X]
				if !ok || !e.elem {
					return false
				}
				vals[x] = e
			case *ssa.ChangeInterface:
				e, ok := vals[x.X]
				if !ok || !e.elem {
					return false
				}
				vals[x] = e
			case *ssa.ChangeType:
				e, ok := vals[x.X]
				if !ok || !e.elem {
					return false
				}
				vals[x] = e
			case *ssa.Slice:
				a, ok := x.X.(*ssa.Alloc)
				if !ok || outside(a) || x.Low != nil || x.High != nil {
					return false
				}
				vals[x] = bulkElem{arr: a}
			case *ssa.Call:
				if b, ok := x.Call.Value.(*ssa.Builtin); ok {
					switch b.Name() {
					case "len":
						continue
					case "append":
						a, ok := vals[x.Call.Args[0]]
						v, ok2 := vals[x.Call.Args[1]]
						if !ok || !ok2 || a.acc == nil || v.arr == nil || a.acc.done || !arrays[v.arr].elem {
							return false
						}
						a.acc.done = true
						a.acc.conv = arrays[v.arr].conv
						a.acc.next = x
						a.acc.call = x
						continue
					}
					return false
				}
				f := x.Call.StaticCallee()
				if f == nil || !it.bulkConv(f) || len(x.Call.Args) != 1 {
					return false
				}
				e, ok := vals[x.Call.Args[0]]
				if !ok || !e.elem || e.conv != "" {
					return false
				}
				vals[x] = bulkElem{elem: true, conv: fullName(f)}
			case *ssa.Store:
				if a, ok := argAddr[x.Addr]; ok {
					e, ok := vals[x.Val]
					if !ok || !e.elem || arrays[a].elem {
						return false
					}
					arrays[a] = e
					continue
				}
				switch ad := x.Addr.(type) {
				case *ssa.FieldAddr:
					a := cells[[2]any{ad.X, ad.Field}]
					if a == nil || !a.done || a.next != x.Val || a.store != nil {
						return false
					}
					a.store = x
				case *ssa.IndexAddr:
					e, ok := vals[x.Val]
					if !ok || !e.elem {
						return false
					}
					accs = append(accs, &bulkAcc{dst: ad.X, conv: e.conv, done: true, store: x})
				default:
					return false
				}
			default:
				return false
			}
		}
	}
	if list == nil || len(accs) == 0 || it.in.lenOf(list) != length {
		return false
	}
	var dsts []*Expr
	for _, a := range accs {
		switch {
		case !a.done:
			return false
		case a.phi != nil:
			if edge(a.phi, true) != a.next {
				return false
			}
		case a.base != nil:
			if a.store == nil {
				return false
			}
		default:
			d := value(a.dst)
			if d == nil || d.Op != OpMake || it.truth(s, it.in.eq(it.in.lenOf(d), length)) != 1 {
				return false
			}
			dsts = append(dsts, d)
		}
	}
	// the effect
	in := it.in
	item := func(conv string, t types.Type) *Expr {
		l := it.snapshot(s, list)
		if conv == "" {
			return l
		}
		x := in.mk(Expr{Op: OpCall, Name: "each " + conv, Args: []*Expr{l}, Typ: t})
		it.assume(s, in.eq(in.lenOf(x), in.lenOf(l)), true)
		return x
	}
	for _, a := range accs {
		switch {
		case a.dst != nil:
			d := dsts[0]
			dsts = dsts[1:]
			if it.hooks.Store != nil {
				el := d.Typ.Underlying().(*types.Slice).Elem()
				it.hooks.Store(s, fr, it.indexAddr(d, in.mk(Expr{Op: OpSym, Name: "each", Typ: types.Typ[types.Int]}), pointerTo(el)), in.mk(Expr{Op: OpSym, Name: "element", Typ: el}), a.store)
			}
			for c := range s.mem {
				if underAddr(c, d) {
					delete(s.mem, c)
				}
			}
			s.mem[it.contentAddr(d)] = item(a.conv, d.Typ)
			continue
		}
		var addr, old *Expr
		var t types.Type
		if a.phi != nil {
			old, t = s.env[envKey{fr.id, a.phi}], a.phi.Type()
		} else {
			f := derefT(a.base.Type()).Underlying().(*types.Struct).Field(a.field)
			t = f.Type()
			addr = it.fieldAddr(it.val(s, fr, a.base), f.Name(), pointerTo(t))
			old = it.load(s, addr, t)
		}
		x := item(a.conv, t)
		if it.hooks.Call != nil {
			it.hooks.Call(s, &CallEv{Instr: a.call, Fr: fr, Name: "append", Method: "append", Args: []*Expr{old, x}, Kind: "call", Pos: instrPos(a.call)})
		}
		o := it.snapshot(s, old)
		if o.isNil() {
			o = in.mk(Expr{Op: OpList, Typ: t})
		}
		now := in.mk(Expr{Op: OpAppend, Args: []*Expr{o, x}, Typ: t})
		if a.phi != nil {
			s.env[envKey{fr.id, a.phi}] = now
			continue
		}
		if it.hooks.Store != nil {
			it.hooks.Store(s, fr, addr, now, a.store)
		}
		it.store(s, addr, now, it.sitetag(fr, a.store))
	}
	s.env[envKey{fr.id, counter}] = in.addc(length, n0)
	return true
}
