package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type typesType = types.Type

func isStruct(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Struct)
	return ok
}

func derefT(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return nil
}

func pointerTo(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	return types.NewPointer(t)
}

// refType reports whether values of t can lead to mutable storage.
func refType(t types.Type) bool {
	if t == nil {
		return true
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Kind() == types.UnsafePointer
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if refType(u.Field(i).Type()) {
				return true
			}
		}
		return false
	case *types.Array:
		return refType(u.Elem())
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			if refType(u.At(i).Type()) {
				return true
			}
		}
		return false
	}
	return true
}

// Frame is one inlined activation of a function.
type Frame struct {
	id       int
	fn       *ssa.Function
	parent   *Frame
	site     ssa.Instruction
	deferred bool
	depth    int
}

type frameKey struct {
	parent int
	site   ssa.Instruction
	fn     *ssa.Function
	objs   string
}

// CallEv describes a call met during the analysis.
type CallEv struct {
	Instr  ssa.CallInstruction
	Fr     *Frame
	Name   string        // full name of the resolved callee, "" for unknown function values
	Fn     *ssa.Function // module function with a body
	Callee *Expr         // function value of a dynamic call
	Invoke bool          // interface call on an unresolved receiver
	Method string        // method name of an interface call
	Args   []*Expr       // receiver first
	Kind   string        // call, defer, go
	Cut    bool          // recursive call that is not entered again
	S      *State        // state before the call
	Pos    token.Pos
}

type exit struct {
	st    *State
	panic bool
	vals  []*Expr
	pos   token.Pos
}

// Hooks let a rule observe and steer the analysis.
type Hooks struct {
	Follow    func(ev *CallEv) bool // enter a recursive call
	Opaque    func(fn *ssa.Function, ev *CallEv) bool
	Call      func(s *State, ev *CallEv)
	After     func(s *State, ev *CallEv, res *Expr)
	Override  func(s *State, ev *CallEv) (res *Expr, handled bool)
	PanicEdge func(s *State, ev *CallEv) bool
	Store     func(s *State, fr *Frame, addr, val *Expr, instr ssa.Instruction)
	MapUpdate func(s *State, fr *Frame, m, k, v *Expr, instr ssa.Instruction)
	Load      func(s *State, fr *Frame, addr *Expr, instr ssa.Instruction)
	Index     func(s *State, fr *Frame, base, idx *Expr, instr ssa.Instruction)
	SliceOp   func(s *State, fr *Frame, base, lo, hi *Expr, instr ssa.Instruction)
	Deref     func(s *State, fr *Frame, ptr *Expr, instr ssa.Instruction)
	Assert    func(s *State, fr *Frame, x *Expr, t types.Type, commaOk bool, instr ssa.Instruction)
	Branch    func(s *State, fr *Frame, cond *Expr, taken bool, instr ssa.Instruction)
	Assume    func(s *State, e *Expr, val bool) bool
	Enter     func(s *State, fr *Frame, args []*Expr)
	Exit      func(fr *Frame, e *exit)
	LoopHead  func(s *State, fr *Frame, blk *ssa.BasicBlock)
	// Next may supply the next key of a map that is gone through.
	Next func(s *State, coll *Expr) (ok, key *Expr)
	// Arrive is called with every state that reaches a loop head, before it is
	// joined; back tells whether an iteration just ended.
	Arrive func(s *State, fr *Frame, blk *ssa.BasicBlock, back bool)
}

// Interp is the abstract interpreter.
type Interp struct {
	p        *Program
	in       *interner
	vtypes   map[*Expr]*Expr // types of widened reflect values
	vmixed   map[*Expr]bool
	hooks    Hooks
	frames   map[frameKey]*Frame
	subs     map[*Expr]bool             // parts of known lists
	bulkConv func(f *ssa.Function) bool // functions of one element that loops over lists may apply
	byID     []*Frame
	globals  map[*Expr]*Expr
	steps    int
	max      int
	// an opaque call may panic with nil
	nilPanics bool
	problem   []string
	cut       map[*ssa.Function]bool
	funcs     map[*ssa.Function]bool
	calls     map[ssa.Instruction]bool
	paths     int
	joins     int
	objs      map[*Expr]bool // known, distinct objects: loops and recursions over them are followed
	apart     int            // how many paths through loops of constant length are kept apart
	// loops already known to be revisited from the entry of the function
	heads map[*ssa.Function]map[*ssa.BasicBlock]bool
	wTags map[*Expr]bool
	// loops around a loop head
	around map[*ssa.BasicBlock][]*ssa.BasicBlock
}

func newInterp(p *Program) *Interp {
	return &Interp{p: p, in: newInterner(), frames: map[frameKey]*Frame{}, globals: map[*Expr]*Expr{}, max: 3000000,
		cut: map[*ssa.Function]bool{}, funcs: map[*ssa.Function]bool{}, calls: map[ssa.Instruction]bool{},
		heads: map[*ssa.Function]map[*ssa.BasicBlock]bool{}, wTags: map[*Expr]bool{}, around: map[*ssa.BasicBlock][]*ssa.BasicBlock{}}
}

func (it *Interp) undecided(format string, a ...any) {
	m := fmt.Sprintf(format, a...)
	for _, p := range it.problem {
		if p == m {
			return
		}
	}
	it.problem = append(it.problem, m)
}

func (it *Interp) frame(parent *Frame, site ssa.Instruction, fn *ssa.Function) *Frame {
	return it.frameFor(parent, site, fn, nil)
}

// frameFor keeps activations for different known objects apart.
func (it *Interp) frameFor(parent *Frame, site ssa.Instruction, fn *ssa.Function, args []*Expr) *Frame {
	pid, d := 0, 0
	if parent != nil {
		pid, d = parent.id, parent.depth+1
	}
	objs := ""
	if it.objs != nil {
		for _, a := range args {
			if it.objs[a] {
				objs += strconv.Itoa(a.ID) + ","
			}
		}
	}
	k := frameKey{pid, site, fn, objs}
	if f, ok := it.frames[k]; ok {
		return f
	}
	f := &Frame{id: len(it.byID) + 1, fn: fn, parent: parent, site: site, depth: d}
	it.byID = append(it.byID, f)
	it.frames[k] = f
	return f
}

// Run analyses fn from state st with the given arguments and bindings.
func (it *Interp) Run(fn *ssa.Function, st *State, args []*Expr, binds []*Expr) []exit {
	fr := it.frame(nil, nil, fn)
	return it.runFunc(fr, st, args, binds)
}

// RunValue calls a function value (closure or function) as an analysis root.
func (it *Interp) RunValue(f *Expr, st *State, args []*Expr) []exit {
	f = strip(f)
	switch f.Op {
	case OpFunc:
		return it.Run(f.Fn, st, args, nil)
	case OpClosure:
		return it.Run(f.Fn, st, args, f.Args)
	}
	it.undecided("function value %v cannot be resolved", f)
	return nil
}

// Params creates symbolic arguments for fn.
func (it *Interp) Params(fn *ssa.Function) []*Expr {
	var out []*Expr
	for i, p := range fn.Params {
		n := p.Name()
		if n == "" || n == "_" {
			n = "arg" + strconv.Itoa(i)
		}
		out = append(out, it.in.mk(Expr{Op: OpParam, Name: fn.Name() + "." + n, Typ: p.Type()}))
	}
	return out
}

func (it *Interp) param(name string, t types.Type) *Expr {
	return it.in.mk(Expr{Op: OpParam, Name: name, Typ: t})
}

type work struct {
	blk, prev *ssa.BasicBlock
	idx       int
	st        *State
}

type headKey struct {
	blk  *ssa.BasicBlock
	auto string
}

func loopHeads(fn *ssa.Function) map[*ssa.BasicBlock]bool {
	out := map[*ssa.BasicBlock]bool{}
	color := map[*ssa.BasicBlock]int{}
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		color[b] = 1
		for _, s := range b.Succs {
			switch color[s] {
			case 0:
				dfs(s)
			case 1:
				out[s] = true
			}
		}
		color[b] = 2
	}
	if len(fn.Blocks) > 0 {
		dfs(fn.Blocks[0])
	}
	return out
}

func (it *Interp) runFunc(fr *Frame, st *State, args, binds []*Expr) []exit {
	fn := fr.fn
	it.funcs[fn] = true
	if fr.depth > 40 {
		it.undecided("inlining depth exceeded at %s", fn)
		return nil
	}
	for i, p := range fn.Params {
		if i < len(args) {
			st.env[envKey{fr.id, p}] = args[i]
		}
	}
	for i, f := range fn.FreeVars {
		if i < len(binds) {
			st.env[envKey{fr.id, f}] = binds[i]
		}
	}
	if it.hooks.Enter != nil {
		it.hooks.Enter(st, fr, args)
	}
	heads, ok := it.heads[fn]
	if !ok {
		heads = loopHeads(fn)
		it.heads[fn] = heads
	}
	hs := map[headKey]*State{}
	var exits []exit
	var wl []work
	wl = append(wl, work{blk: fn.Blocks[0], st: st})
	finish := func(e exit) {
		for k := range e.st.env {
			if k.frame == fr.id {
				delete(e.st.env, k)
			}
		}
		delete(e.st.defers, fr.id)
		if it.hooks.Exit != nil {
			it.hooks.Exit(fr, &e)
		}
		exits = append(exits, e)
		if fr.parent == nil {
			it.paths++
		}
	}
	// unwind runs the deferred calls of the frame while a panic propagates.
	unwind := func(s *State, pos token.Pos) []work {
		var cont []work
		for _, r := range it.runDefers(fr, s) {
			if r.panicking != nil {
				finish(exit{st: r, panic: true, pos: pos})
			} else if fn.Recover != nil {
				cont = append(cont, work{blk: fn.Recover, st: r})
			} else {
				var vals []*Expr
				res := fn.Signature.Results()
				for i := 0; i < res.Len(); i++ {
					vals = append(vals, it.in.zero(res.At(i).Type()))
				}
				finish(exit{st: r, vals: vals, pos: pos})
			}
		}
		return cont
	}
next:
	for len(wl) > 0 {
		w := wl[len(wl)-1]
		wl = wl[:len(wl)-1]
		s, blk := w.st, w.blk
		if w.idx == 0 {
			// phis are evaluated together
			var phis []*ssa.Phi
			var vals []*Expr
			for _, in := range blk.Instrs {
				p, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				for i, pred := range blk.Preds {
					if pred == w.prev {
						phis = append(phis, p)
						vals = append(vals, it.val(s, fr, p.Edges[i]))
						break
					}
				}
			}
			if heads[blk] && w.prev != nil && blk.Dominates(w.prev) {
				// an outcome remembered for the next iteration
				for i, p := range phis {
					if !isBoolT(p.Type()) || vals[i].Const != nil || vals[i].Op != OpBin && vals[i].Op != OpNot && vals[i].Op != OpCall && vals[i].Op != OpRes {
						continue
					}
					t := it.truth(s, vals[i])
					if t == 0 {
						if s2 := s.clone(); it.assume(s2, vals[i], false) {
							wl = append(wl, work{blk: blk, prev: w.prev, st: s2})
						}
						if !it.assume(s, vals[i], true) {
							continue next
						}
						t = 1
					}
					vals[i] = it.in.boolc(t == 1)
				}
			}
			for i, p := range phis {
				s.env[envKey{fr.id, p}] = vals[i]
			}
			w.idx = len(phis)
			if heads[blk] {
				if it.hooks.Arrive != nil {
					it.hooks.Arrive(s, fr, blk, w.prev != nil && blk.Dominates(w.prev))
				}
				cont := w.prev != nil && !blk.Dominates(w.prev) && it.bulk(fr, blk, s)
				if !cont {
					s, cont = it.joinHead(fr, blk, s, hs)
				}
				if !cont {
					continue next
				}
				if it.hooks.LoopHead != nil {
					it.hooks.LoopHead(s, fr, blk)
				}
			}
		}
		for i := w.idx; i < len(blk.Instrs); i++ {
			it.steps++
			if it.steps > it.max {
				it.undecided("analysis budget exceeded in %s", fn)
				return exits
			}
			instr := blk.Instrs[i]
			switch instr := instr.(type) {
			case *ssa.If:
				c := it.val(s, fr, instr.Cond)
				t := it.truth(s, c)
				if t >= 0 {
					s2 := s
					if t == 0 {
						s2 = s.clone()
					}
					if t == 1 || it.assume(s2, c, true) {
						s2.step(instrPos(instr), "when "+c.String())
						if it.hooks.Branch != nil {
							it.hooks.Branch(s2, fr, c, true, instr)
						}
						wl = append(wl, work{blk: blk.Succs[0], prev: blk, st: s2})
					}
				}
				if t <= 0 {
					if t == -1 || it.assume(s, c, false) {
						s.step(instrPos(instr), "when "+it.in.not(c).String())
						if it.hooks.Branch != nil {
							it.hooks.Branch(s, fr, c, false, instr)
						}
						wl = append(wl, work{blk: blk.Succs[1], prev: blk, st: s})
					}
				}
				continue next
			case *ssa.Jump:
				wl = append(wl, work{blk: blk.Succs[0], prev: blk, st: s})
				continue next
			case *ssa.Return:
				var vals []*Expr
				for _, r := range instr.Results {
					vals = append(vals, it.val(s, fr, r))
				}
				finish(exit{st: s, vals: vals, pos: instrPos(instr)})
				continue next
			case *ssa.Panic:
				s.panicking = it.val(s, fr, instr.X)
				s.step(instrPos(instr), "panic "+s.panicking.String())
				wl = append(wl, unwind(s, instrPos(instr))...)
				continue next
			case *ssa.RunDefers:
				for _, r := range it.runDefers(fr, s) {
					if r.panicking != nil {
						finish(exit{st: r, panic: true, pos: instrPos(instr)})
						continue
					}
					wl = append(wl, work{blk: blk, prev: w.prev, idx: i + 1, st: r})
				}
				continue next
			case *ssa.Call:
				outs := it.call(s, fr, instr, instr.Common(), "call")
				single := len(outs) == 1 && !outs[0].panic
				if single {
					s = outs[0].st
					s.env[envKey{fr.id, instr}] = tupleOf(it, outs[0].vals, instr.Type())
					continue
				}
				for _, o := range outs {
					if o.panic {
						wl = append(wl, unwind(o.st, instr.Pos())...)
						continue
					}
					o.st.env[envKey{fr.id, instr}] = tupleOf(it, o.vals, instr.Type())
					wl = append(wl, work{blk: blk, prev: w.prev, idx: i + 1, st: o.st})
				}
				continue next
			default:
				if !it.simple(s, fr, instr) {
					continue next
				}
			}
		}
	}
	return exits
}

func tupleOf(it *Interp, vals []*Expr, t types.Type) *Expr {
	if len(vals) == 1 {
		return vals[0]
	}
	return it.in.mk(Expr{Op: OpTuple, Args: vals, Typ: t})
}

func instrPos(i ssa.Instruction) token.Pos {
	if p := i.Pos(); p.IsValid() {
		return p
	}
	switch x := i.(type) {
	case *ssa.If:
		if c, ok := x.Cond.(ssa.Instruction); ok && c.Pos().IsValid() {
			return c.Pos()
		}
	}
	b := i.Block()
	if b == nil {
		return token.NoPos
	}
	k := -1
	for j, x := range b.Instrs {
		if x == i {
			k = j
		}
	}
	for j := k - 1; j >= 0; j-- {
		if p := b.Instrs[j].Pos(); p.IsValid() {
			return p
		}
	}
	return b.Parent().Pos()
}

// runDefers runs the deferred calls of fr in LIFO order.
func (it *Interp) runDefers(fr *Frame, s *State) []*State {
	states := []*State{s}
	var done []*State
	for len(states) > 0 {
		x := states[len(states)-1]
		states = states[:len(states)-1]
		ds := x.defers[fr.id]
		if len(ds) == 0 {
			done = append(done, x)
			continue
		}
		d := ds[len(ds)-1]
		x.defers[fr.id] = ds[: len(ds)-1 : len(ds)-1]
		for _, o := range it.callResolved(x, fr, d.instr, d.call, d.fn, d.args, "defer") {
			states = append(states, o.st)
		}
	}
	return done
}

// val evaluates an SSA operand.
func (it *Interp) val(s *State, fr *Frame, v ssa.Value) *Expr {
	in := it.in
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value == nil {
			return in.zero(v.Type())
		}
		return in.constOf(v.Value, v.Type())
	case *ssa.Global:
		return in.mk(Expr{Op: OpGlobal, Glob: v, Typ: v.Type()})
	case *ssa.Function:
		return in.mk(Expr{Op: OpFunc, Fn: v, Typ: v.Type()})
	case *ssa.Builtin:
		return in.mk(Expr{Op: OpSym, Name: "builtin:" + v.Name(), Typ: v.Type()})
	}
	if e, ok := s.env[envKey{fr.id, v}]; ok {
		return e
	}
	// a value from a path the analysis did not take
	return in.mk(Expr{Op: OpSym, Name: fmt.Sprintf("undef:%d:%s", fr.id, v.Name()), Typ: v.Type()})
}

func (it *Interp) fresh(s *State, fr *Frame, instr ssa.Instruction, kind string, e Expr) *Expr {
	tag := it.in.site(fr.id, instr, kind)
	it.rename(s, tag)
	e.Tag = tag
	e.Pos = instr.Pos()
	return it.in.mk(e)
}

func (it *Interp) sitetag(fr *Frame, instr ssa.Instruction) string {
	return "s" + strconv.Itoa(it.in.site(fr.id, instr, "eff"))
}

// notNil records that a dereferenced pointer is not nil.
func (it *Interp) deref(s *State, fr *Frame, p *Expr, instr ssa.Instruction) bool {
	if it.hooks.Deref != nil {
		it.hooks.Deref(s, fr, p, instr)
	}
	if it.nilness(s, p) == 1 {
		return false // this path ends with a nil dereference
	}
	switch p.Op {
	case OpParam, OpInit, OpRes, OpSym, OpExtract, OpCall, OpLookup, OpField, OpAssert:
		return it.assume(s, it.in.eq(p, it.in.zero(p.Typ)), false)
	}
	return true
}

// simple interprets an instruction that does not transfer control; false ends
// the path.
func (it *Interp) simple(s *State, fr *Frame, instr ssa.Instruction) bool {
	in := it.in
	set := func(v ssa.Value, e *Expr) { s.env[envKey{fr.id, v}] = e }
	switch x := instr.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		kind := "local"
		if x.Heap {
			kind = "heap"
		}
		a := it.fresh(s, fr, x, "alloc", Expr{Op: OpAlloc, Name: kind, Typ: x.Type()})
		// a new object: nothing is known about older cells
		for c := range s.mem {
			if addrRoot(c) == a {
				delete(s.mem, c)
			}
		}
		delete(s.epoch, a)
		set(x, a)
	case *ssa.BinOp:
		a, b := it.val(s, fr, x.X), it.val(s, fr, x.Y)
		set(x, in.bin(x.Op, a, b, x.Type()))
	case *ssa.UnOp:
		a := it.val(s, fr, x.X)
		switch x.Op {
		case token.MUL:
			if !it.deref(s, fr, a, x) {
				return false
			}
			if it.hooks.Load != nil {
				it.hooks.Load(s, fr, a, x)
			}
			set(x, it.load(s, a, x.Type()))
		case token.NOT:
			set(x, in.not(a))
		case token.ARROW:
			set(x, it.fresh(s, fr, x, "recv", Expr{Op: OpRes, Name: "receive", Args: []*Expr{a}, Typ: x.Type()}))
		default:
			if c, ok := a.constInt(); ok && x.Op == token.SUB {
				set(x, in.constOf(constant.MakeInt64(-c), x.Type()))
			} else {
				set(x, in.mk(Expr{Op: OpNeg, Name: x.Op.String(), Args: []*Expr{a}, Typ: x.Type()}))
			}
		}
	case *ssa.ChangeInterface:
		a := it.val(s, fr, x.X)
		if a.Op == OpIface {
			set(x, in.mk(Expr{Op: OpIface, Args: a.Args, Typ: x.Type()}))
		} else {
			set(x, a)
		}
	case *ssa.ChangeType:
		a := it.val(s, fr, x.X)
		if a.isNil() {
			set(x, in.zero(x.Type()))
		} else {
			set(x, in.mk(Expr{Op: OpChange, Args: []*Expr{stripChange(a)}, Typ: x.Type()}))
		}
	case *ssa.Convert:
		a := it.val(s, fr, x.X)
		if a.Op == OpConst && a.Const != nil && isInteger(a.Typ) && isInteger(x.Type()) {
			set(x, in.constOf(a.Const, x.Type()))
		} else if a.Op == OpConst && a.Const != nil && a.Const.Kind() == constant.String && isStringT(x.Type()) {
			set(x, in.constOf(a.Const, x.Type()))
		} else {
			set(x, in.mk(Expr{Op: OpConv, Args: []*Expr{a}, Typ: x.Type()}))
		}
	case *ssa.MultiConvert:
		set(x, in.mk(Expr{Op: OpConv, Args: []*Expr{it.val(s, fr, x.X)}, Typ: x.Type()}))
	case *ssa.MakeInterface:
		v := it.val(s, fr, x.X)
		if v.isNil() && !types.Identical(v.Typ, x.X.Type()) {
			// nil constants are one whatever their type; here the type matters
			v = in.mk(Expr{Op: OpChange, Args: []*Expr{v}, Typ: x.X.Type()})
		}
		set(x, in.mk(Expr{Op: OpIface, Args: []*Expr{v}, Typ: x.Type()}))
	case *ssa.Extract:
		t := it.val(s, fr, x.Tuple)
		set(x, it.extract(t, x.Index, x.Type()))
	case *ssa.Field:
		b := it.val(s, fr, x.X)
		st := x.X.Type().Underlying().(*types.Struct)
		set(x, it.fieldOf(b, st.Field(x.Field).Name(), x.Type()))
	case *ssa.FieldAddr:
		b := it.val(s, fr, x.X)
		if !it.deref(s, fr, b, x) {
			return false
		}
		st := derefT(x.X.Type()).Underlying().(*types.Struct)
		set(x, it.fieldAddr(b, st.Field(x.Field).Name(), x.Type()))
	case *ssa.IndexAddr:
		b, i := it.val(s, fr, x.X), it.val(s, fr, x.Index)
		if it.hooks.Index != nil {
			it.hooks.Index(s, fr, b, i, x)
		}
		if !it.inRange(s, b, i, x.X.Type()) {
			return false
		}
		set(x, it.indexAddr(b, i, x.Type()))
	case *ssa.Index:
		b, i := it.val(s, fr, x.X), it.val(s, fr, x.Index)
		if it.hooks.Index != nil {
			it.hooks.Index(s, fr, b, i, x)
		}
		if !it.inRange(s, b, i, x.X.Type()) {
			return false
		}
		if str, ok := b.constStr(); ok {
			if k, ok := i.constInt(); ok && k >= 0 && int(k) < len(str) {
				set(x, in.constOf(constant.MakeInt64(int64(str[k])), x.Type()))
				break
			}
		}
		if e := it.seqElem(b, i); e != nil {
			set(x, e)
			break
		}
		set(x, in.mk(Expr{Op: OpIndex, Args: []*Expr{b, i}, Typ: x.Type()}))
	case *ssa.Lookup:
		m, k := it.val(s, fr, x.X), it.val(s, fr, x.Index)
		if _, ok := x.X.Type().Underlying().(*types.Map); !ok {
			if it.hooks.Index != nil {
				it.hooks.Index(s, fr, m, k, x)
			}
			if !it.inRange(s, m, k, x.X.Type()) {
				return false
			}
			set(x, in.mk(Expr{Op: OpIndex, Args: []*Expr{m, k}, Typ: x.Type()}))
			break
		}
		et := x.X.Type().Underlying().(*types.Map).Elem()
		v, ok := it.lookup(s, m, k, et)
		if x.CommaOk {
			set(x, in.mk(Expr{Op: OpTuple, Args: []*Expr{v, ok}, Typ: x.Type()}))
		} else {
			set(x, v)
		}
	case *ssa.MakeChan:
		set(x, it.fresh(s, fr, x, "make", Expr{Op: OpMake, Name: "chan", Typ: x.Type()}))
	case *ssa.MakeMap:
		m := it.fresh(s, fr, x, "make", Expr{Op: OpMake, Name: "map", Typ: x.Type()})
		for c := range s.mem {
			if addrRoot(c) == m {
				delete(s.mem, c)
			}
		}
		delete(s.epoch, m)
		set(x, m)
	case *ssa.MakeSlice:
		l := it.val(s, fr, x.Len)
		m := it.fresh(s, fr, x, "make", Expr{Op: OpMake, Name: "slice", Args: []*Expr{l}, Typ: x.Type()})
		for c := range s.mem {
			if addrRoot(c) == m {
				delete(s.mem, c)
			}
		}
		delete(s.epoch, m)
		set(x, m)
	case *ssa.MakeClosure:
		var bs []*Expr
		for _, b := range x.Bindings {
			bs = append(bs, it.val(s, fr, b))
		}
		set(x, in.mk(Expr{Op: OpClosure, Fn: x.Fn.(*ssa.Function), Args: bs, Typ: x.Type()}))
	case *ssa.MapUpdate:
		m, k, v := it.val(s, fr, x.Map), it.val(s, fr, x.Key), it.val(s, fr, x.Value)
		if it.hooks.MapUpdate != nil {
			it.hooks.MapUpdate(s, fr, m, k, v, x)
		}
		if it.nilness(s, m) == 1 {
			return false
		}
		it.mapSet(s, m, k, v, it.sitetag(fr, x))
	case *ssa.Range:
		set(x, in.mk(Expr{Op: OpRes, Name: "range", Tag: in.site(fr.id, x, "range"), Args: []*Expr{it.val(s, fr, x.X)}, Typ: x.Type()}))
	case *ssa.Next:
		r := it.val(s, fr, x.Iter)
		tag := in.site(fr.id, x, "next")
		it.rename(s, tag)
		tt := x.Type().(*types.Tuple)
		ok := in.mk(Expr{Op: OpRes, Name: "next.ok", Tag: tag, Args: []*Expr{r}, Typ: tt.At(0).Type()})
		var k, v *Expr
		var coll *Expr
		for _, c := range append([]*Expr{r}, in.alternatives(r)...) {
			if c.Op == OpRes && c.Name == "range" {
				coll = c.Args[0]
			}
		}
		if coll == nil {
			it.undecided("range over an unknown value in %s", fr.fn)
			return false
		}
		kt, vt := tt.At(1).Type(), tt.At(2).Type()
		if x.IsString {
			k = in.mk(Expr{Op: OpRes, Name: "next.i", Tag: tag, Args: []*Expr{r}, Typ: types.Typ[types.Int]})
			v = in.mk(Expr{Op: OpRes, Name: "next.r", Tag: tag, Args: []*Expr{r}, Typ: types.Typ[types.Rune]})
			s.facts[in.lss(k, in.intc(0))] = false
		} else {
			mt := coll.Typ
			if m, isMap := mt.Underlying().(*types.Map); isMap {
				kt, vt = m.Key(), m.Elem()
			}
			k = in.mk(Expr{Op: OpRes, Name: "next.k", Tag: tag, Args: []*Expr{r}, Typ: kt})
			v = in.mk(Expr{Op: OpLookup, Name: it.epochOf(s, coll), Args: []*Expr{coll, k}, Typ: vt})
		}
		if it.hooks.Next != nil && !x.IsString {
			if o, kk := it.hooks.Next(s, coll); o != nil {
				ok = o
				if kk != nil {
					k = kk
					v, _ = it.lookup(s, coll, k, vt)
				}
			}
		}
		set(x, in.mk(Expr{Op: OpTuple, Args: []*Expr{ok, k, v}, Typ: x.Type()}))
	case *ssa.Send:
	case *ssa.Select:
		set(x, it.fresh(s, fr, x, "select", Expr{Op: OpRes, Name: "select", Typ: x.Type()}))
	case *ssa.Slice:
		b := it.val(s, fr, x.X)
		arg := func(v ssa.Value) *Expr {
			if v == nil {
				return nil
			}
			return it.val(s, fr, v)
		}
		lo, hi, mx := arg(x.Low), arg(x.High), arg(x.Max)
		if it.hooks.SliceOp != nil {
			it.hooks.SliceOp(s, fr, b, lo, hi, x)
		}
		if c, ok := lo.constInt(); ok && c == 0 {
			lo = nil
		}
		if str, ok := b.constStr(); ok {
			l, h := int64(0), int64(len(str))
			okc := true
			if lo != nil {
				if l, ok = lo.constInt(); !ok {
					okc = false
				}
			}
			if hi != nil {
				if h, ok = hi.constInt(); !ok {
					okc = false
				}
			}
			if okc && l >= 0 && l <= h && h <= int64(len(str)) {
				set(x, in.constOf(constant.MakeString(str[l:h]), x.Type()))
				break
			}
		}
		if hi != nil && derefT(x.X.Type()) == nil && (lo == nil || mx == nil) && hi == in.lenOf(b) {
			hi = nil
		}
		if lo == nil && hi == nil && mx == nil && derefT(x.X.Type()) == nil {
			set(x, b)
			break
		}
		if it.objs != nil && mx == nil {
			if l := it.sublist(s, b, lo, hi, x.Type()); l != nil {
				set(x, l)
				break
			}
		}
		set(x, in.mk(Expr{Op: OpSlice, Args: []*Expr{b, lo, hi, mx}, Typ: x.Type()}))
	case *ssa.SliceToArrayPointer:
		set(x, in.mk(Expr{Op: OpConv, Args: []*Expr{it.val(s, fr, x.X)}, Typ: x.Type()}))
	case *ssa.Store:
		a, v := it.val(s, fr, x.Addr), it.val(s, fr, x.Val)
		if !it.deref(s, fr, a, x) {
			return false
		}
		if it.hooks.Store != nil {
			it.hooks.Store(s, fr, a, v, x)
		}
		if a.Op == OpIndexAddr && it.subs[a.Args[0]] {
			it.undecided("assignment to an element of a part of a list")
		}
		it.store(s, a, v, it.sitetag(fr, x))
	case *ssa.TypeAssert:
		a := it.val(s, fr, x.X)
		if it.hooks.Assert != nil {
			it.hooks.Assert(s, fr, a, x.AssertedType, x.CommaOk, x)
		}
		v, ok := it.assert(a, x.AssertedType)
		if x.CommaOk {
			set(x, in.mk(Expr{Op: OpTuple, Args: []*Expr{v, ok}, Typ: x.Type()}))
			break
		}
		if !it.assume(s, ok, true) {
			return false
		}
		set(x, v)
	case *ssa.Defer:
		fn, args := it.operands(s, fr, x.Common())
		s.defers[fr.id] = append(s.defers[fr.id][:len(s.defers[fr.id]):len(s.defers[fr.id])], deferred{instr: x, fn: fn, args: args, call: x.Common()})
		if it.hooks.Call != nil {
			ev := it.event(s, fr, x, x.Common(), fn, args, "defer-stmt")
			it.hooks.Call(s, ev)
		}
	case *ssa.Go:
		fn, args := it.operands(s, fr, x.Common())
		ev := it.event(s, fr, x, x.Common(), fn, args, "go")
		if it.hooks.Call != nil {
			it.hooks.Call(s, ev)
		}
		for _, a := range args {
			it.havoc(s, a, it.sitetag(fr, x))
		}
		if fn != nil {
			it.havoc(s, fn, it.sitetag(fr, x))
		}
	default:
		it.undecided("unsupported instruction %T in %s", instr, fr.fn)
		return false
	}
	return true
}

// inRange adds the facts of a successful indexing.
func (it *Interp) inRange(s *State, b, i *Expr, t types.Type) bool {
	in := it.in
	if p := derefT(t); p != nil {
		t = p
	}
	var n *Expr
	switch u := t.Underlying().(type) {
	case *types.Array:
		n = in.intc(u.Len())
	default:
		n = in.lenOf(b)
	}
	if !it.assume(s, in.lss(i, n), true) {
		return false
	}
	return it.assume(s, in.lss(i, in.intc(0)), false)
}

func (it *Interp) extract(t *Expr, i int, typ types.Type) *Expr {
	if t.Op == OpTuple && i < len(t.Args) {
		return t.Args[i]
	}
	return it.in.mk(Expr{Op: OpExtract, Name: strconv.Itoa(i), Args: []*Expr{t}, Typ: typ})
}

func (it *Interp) assert(a *Expr, t types.Type) (v, ok *Expr) {
	in := it.in
	if a.isNil() {
		return in.zero(t), in.boolc(false)
	}
	if a.Op == OpIface {
		d := a.Args[0].Typ
		if d != nil {
			if types.IsInterface(t) {
				if types.Implements(d, t.Underlying().(*types.Interface)) {
					return in.mk(Expr{Op: OpIface, Args: a.Args, Typ: t}), in.boolc(true)
				}
				return in.zero(t), in.boolc(false)
			}
			if types.Identical(d, t) {
				return a.Args[0], in.boolc(true)
			}
			return in.zero(t), in.boolc(false)
		}
	}
	ok = in.mk(Expr{Op: OpAssertOk, Args: []*Expr{a}, Name: typeKey(t), Typ: t})
	if types.IsInterface(t) && a.Typ != nil && types.IsInterface(a.Typ) && types.Identical(a.Typ.Underlying(), t.Underlying()) {
		ok = in.not(in.eq(a, in.zero(a.Typ)))
	}
	v = in.mk(Expr{Op: OpAssert, Args: []*Expr{a}, Typ: t})
	if types.IsInterface(t) {
		v = a
	}
	return v, ok
}

// assertKnown uses the facts about the dynamic type of a value.
func (it *Interp) assertKnown(s *State, e *Expr) int {
	x := e.Args[0]
	if it.nilness0(s, x) == 1 {
		return -1
	}
	for f, v := range s.facts {
		if f.Op != OpAssertOk || f.Args[0] != x || f == e {
			continue
		}
		ti, te := types.IsInterface(f.Typ), types.IsInterface(e.Typ)
		if v && !ti {
			if !te {
				return -1 // another concrete type
			}
			return b2i(types.Implements(f.Typ, e.Typ.Underlying().(*types.Interface)))
		}
		if !v && ti && !te && types.Implements(e.Typ, f.Typ.Underlying().(*types.Interface)) {
			return -1
		}
	}
	return 0
}

func (it *Interp) nilness0(s *State, a *Expr) int {
	if a.isNil() {
		return 1
	}
	if v, ok := s.facts[it.in.eq(a, it.in.zero(a.Typ))]; ok {
		return b2i(v)
	}
	return 0
}

// ---- maps ----

func (it *Interp) lookup(s *State, m, k *Expr, t types.Type) (v, ok *Expr) {
	in := it.in
	m = stripChange(m)
	if m.isNil() {
		return in.zero(t), in.boolc(false)
	}
	if c := it.constOfState(s, k); c != nil {
		k = c
	}
	cell := in.mk(Expr{Op: OpMapCell, Args: []*Expr{m, k}, Typ: pointerTo(t)})
	if v, has := s.mem[cell]; has {
		return v, in.boolc(true)
	}
	ep := it.epochOf(s, m)
	if ep == "" {
		if m.Op == OpMake {
			unknown := false
			for c := range s.mem {
				if c.Op == OpMapCell && c.Args[0] == m && it.truth(s, in.eq(c.Args[1], k)) != -1 {
					unknown = true
				}
			}
			if !unknown {
				return in.zero(t), in.boolc(false)
			}
		}
		if m.Op == OpInit {
			if g := it.mapInit(m, k, t); g != nil {
				return g, in.boolc(true)
			}
		}
	}
	return in.mk(Expr{Op: OpLookup, Name: ep, Args: []*Expr{m, k}, Typ: t}),
		in.mk(Expr{Op: OpLookupOk, Name: ep, Args: []*Expr{m, k}, Typ: types.Typ[types.Bool]})
}

func (it *Interp) mapSet(s *State, m, k, v *Expr, tag string) {
	in := it.in
	m = stripChange(m)
	cell := in.mk(Expr{Op: OpMapCell, Args: []*Expr{m, k}, Typ: pointerTo(v.Typ)})
	bump := false
	for c := range s.mem {
		if c.Op == OpMapCell && c != cell && c.Args[0] == m && it.truth(s, in.eq(c.Args[1], k)) != -1 {
			delete(s.mem, c)
			bump = true
		}
	}
	for f := range s.facts {
		if f.Op == OpLookupOk && f.Args[0] == m && f.Args[1] != k {
			if it.truth(s, in.eq(f.Args[1], k)) != -1 {
				delete(s.facts, f)
				bump = true
			}
		}
	}
	if bump || m.Op != OpMake {
		it.renameEff(s, tag)
		s.mark(m, tag)
	}
	s.mem[cell] = v
}

// ---- calls ----

func (it *Interp) operands(s *State, fr *Frame, c *ssa.CallCommon) (fn *Expr, args []*Expr) {
	if c.IsInvoke() {
		args = append(args, it.val(s, fr, c.Value))
	} else {
		fn = it.val(s, fr, c.Value)
	}
	for _, a := range c.Args {
		args = append(args, it.val(s, fr, a))
	}
	return fn, args
}

// event resolves the callee of a call.
func (it *Interp) event(s *State, fr *Frame, instr ssa.CallInstruction, c *ssa.CallCommon, fn *Expr, args []*Expr, kind string) *CallEv {
	ev := &CallEv{Instr: instr, Fr: fr, Callee: fn, Args: args, Kind: kind, Pos: c.Pos()}
	if !ev.Pos.IsValid() {
		ev.Pos = instrPos(instr)
	}
	var f *ssa.Function
	if c.IsInvoke() {
		ev.Invoke = true
		ev.Method = c.Method.Name()
		ev.Name = c.Method.FullName()
		r := stripIface(args[0])
		if r.Op != OpIface && r.Typ != nil && !types.IsInterface(r.Typ) {
			// unwrapped concrete value
			f = it.p.prog.LookupMethod(r.Typ, c.Method.Pkg(), c.Method.Name())
		} else if r.Op == OpIface {
			ct := r.Args[0].Typ
			if ct != nil && !types.IsInterface(ct) {
				if sel := it.p.prog.MethodSets.MethodSet(ct).Lookup(c.Method.Pkg(), c.Method.Name()); sel != nil {
					f = it.p.prog.MethodValue(sel)
					args = append([]*Expr{r.Args[0]}, args[1:]...)
					ev.Args = args
				}
			}
		}
		if f != nil {
			ev.Invoke = false
			if o := f.Object(); o != nil {
				ev.Name = o.(*types.Func).FullName()
			}
		}
	} else {
		x := strip(fn)
		switch x.Op {
		case OpFunc:
			f = x.Fn
		case OpClosure:
			f = x.Fn
		}
		if f != nil {
			ev.Name = fullName(f)
			ev.Method = f.Name()
		}
	}
	if f != nil && len(f.Blocks) > 0 && it.p.inModule(f) {
		ev.Fn = f
	}
	return ev
}

func stripIface(e *Expr) *Expr {
	for e.Op == OpChange {
		e = e.Args[0]
	}
	for e.Op == OpIface && e.Args[0].Op == OpIface {
		e = e.Args[0]
	}
	return e
}

func fullName(f *ssa.Function) string {
	if o := f.Object(); o != nil {
		if tf, ok := o.(*types.Func); ok {
			return tf.FullName()
		}
	}
	return f.String()
}

func (it *Interp) call(s *State, fr *Frame, instr *ssa.Call, c *ssa.CallCommon, kind string) []exit {
	fn, args := it.operands(s, fr, c)
	return it.callResolved(s, fr, instr, c, fn, args, kind)
}

func (it *Interp) callResolved(s *State, fr *Frame, instr ssa.CallInstruction, c *ssa.CallCommon, fn *Expr, args []*Expr, kind string) []exit {
	in := it.in
	if b, ok := c.Value.(*ssa.Builtin); ok && !c.IsInvoke() {
		return it.builtin(s, fr, instr, c, b.Name(), args, kind)
	}
	it.calls[instr] = true
	ev := it.event(s, fr, instr, c, fn, args, kind)
	ev.S = s
	args = ev.Args
	if ev.Callee != nil {
		if x := strip(ev.Callee); x.Op != OpClosure && ev.Fn == nil && x.isNil() {
			return nil // call of a nil function
		}
	}
	if ev.Invoke && it.nilness(s, args[0]) == 1 {
		return nil
	}
	if ev.Name == "reflect.Indirect" && len(args) == 1 {
		// the value itself, or its element when it is a pointer
		ptr := in.eq(it.kindOf(args[0]), it.typedInt(22, it.p.reflectType("Kind")))
		plain := s.clone()
		var out []exit
		if it.assume(plain, ptr, false) {
			plain.step(ev.Pos, "when "+in.not(ptr).String())
			out = append(out, exit{st: plain, vals: []*Expr{args[0]}})
		}
		if it.assume(s, ptr, true) {
			s.step(ev.Pos, "when "+ptr.String())
			ev.Name = "(reflect.Value).Elem"
			out = append(out, it.callEvent(s, fr, instr, c, ev, kind)...)
		}
		return out
	}
	return it.callEvent(s, fr, instr, c, ev, kind)
}

func (it *Interp) callEvent(s *State, fr *Frame, instr ssa.CallInstruction, c *ssa.CallCommon, ev *CallEv, kind string) []exit {
	in := it.in
	args := ev.Args
	var binds []*Expr
	if ev.Callee != nil {
		if x := strip(ev.Callee); x.Op == OpClosure {
			binds = x.Args
		}
	}
	opaque := ev.Fn == nil
	if !opaque {
		for p := fr; p != nil; p = p.parent {
			if p.fn == ev.Fn && !it.follows(fr, ev) {
				ev.Cut = true
				it.cut[ev.Fn] = true
				opaque = true
				break
			}
		}
	}
	if !opaque && it.hooks.Opaque != nil && it.hooks.Opaque(ev.Fn, ev) {
		opaque = true
	}
	if it.hooks.Call != nil {
		it.hooks.Call(s, ev)
	}
	if it.hooks.Override != nil {
		if res, ok := it.hooks.Override(s, ev); ok {
			if it.hooks.After != nil {
				it.hooks.After(s, ev, res)
			}
			return []exit{{st: s, vals: it.split(res, c.Signature())}}
		}
	}
	if vals, ok := it.builder(s, ev); ok {
		if it.hooks.After != nil {
			it.hooks.After(s, ev, tupleOf(it, vals, c.Signature().Results()))
		}
		return []exit{{st: s, vals: vals}}
	}
	if !opaque {
		cf := it.frameFor(fr, instr, ev.Fn, args)
		cf.deferred = kind == "defer"
		return it.runFunc(cf, s, args, binds)
	}
	var out []exit
	if it.hooks.PanicEdge != nil && it.hooks.PanicEdge(s, ev) {
		p := s.clone()
		it.effect(p, ev)
		p.panicking = in.mk(Expr{Op: OpSym, Name: "panic@" + strconv.Itoa(in.site(fr.id, instr, "panic")), Typ: types.NewInterfaceType(nil, nil)})
		if !it.nilPanics {
			p.facts[in.eq(p.panicking, in.zero(p.panicking.Typ))] = false
		}
		p.step(ev.Pos, "panic in "+ev.Name)
		out = append(out, exit{st: p, panic: true, pos: ev.Pos})
	}
	var rt types.Type
	res := c.Signature().Results()
	switch res.Len() {
	case 0:
	case 1:
		rt = res.At(0).Type()
	default:
		rt = res
	}
	full := make([]*Expr, len(args))
	for i, a := range args {
		full[i] = it.snapshot(s, a)
	}
	ev.Args = full
	var r *Expr
	if rt != nil {
		if pure(it, s, ev) {
			r = it.pureCall(s, ev, rt)
		} else {
			name := ev.Name
			if name == "" {
				name = "dynamic"
				full = append([]*Expr{ev.Callee}, full...)
			}
			r = it.fresh(s, fr, instr, "res", Expr{Op: OpRes, Name: name, Args: full, Typ: rt})
		}
	}
	it.effect(s, ev)
	if it.hooks.After != nil {
		it.hooks.After(s, ev, r)
	}
	out = append(out, exit{st: s, vals: it.split(r, c.Signature())})
	return out
}

func (it *Interp) split(r *Expr, sig *types.Signature) []*Expr {
	n := sig.Results().Len()
	if n == 0 || r == nil {
		return nil
	}
	if n == 1 {
		return []*Expr{r}
	}
	var out []*Expr
	for i := 0; i < n; i++ {
		out = append(out, it.extract(r, i, sig.Results().At(i).Type()))
	}
	return out
}

// snapshot turns slices with known content into lists.
func (it *Interp) snapshot(s *State, e *Expr) *Expr {
	in := it.in
	switch e.Op {
	case OpChange:
		x := it.snapshot(s, e.Args[0])
		if x != e.Args[0] {
			return x
		}
		return e
	case OpIface:
		x := it.snapshot(s, e.Args[0])
		if x != e.Args[0] {
			return in.mk(Expr{Op: OpIface, Args: []*Expr{x}, Typ: e.Typ})
		}
		return e
	case OpSlice:
		b := e.Args[0]
		if e.Args[1] == nil && e.Args[2] == nil && b.Op == OpAlloc {
			if arr, ok := derefT(b.Typ).Underlying().(*types.Array); ok && it.epochOf(s, b) == "" && arr.Len() <= 64 {
				var es []*Expr
				for i := int64(0); i < arr.Len(); i++ {
					a := it.indexAddr(b, in.intc(i), pointerTo(arr.Elem()))
					v := it.load(s, a, arr.Elem())
					es = append(es, v)
				}
				return in.mk(Expr{Op: OpList, Args: es, Typ: e.Typ})
			}
		}
		if e.Args[1] == nil && e.Args[2] == nil && b.Op == OpSym && strings.HasPrefix(b.Name, "old:") && derefT(b.Typ) != nil {
			// an earlier array whose elements are all known
			if arr, ok := derefT(b.Typ).Underlying().(*types.Array); ok && arr.Len() <= 64 {
				var es []*Expr
				for i := int64(0); i < arr.Len(); i++ {
					v := s.mem[it.indexAddr(b, in.intc(i), pointerTo(arr.Elem()))]
					if v == nil {
						return e
					}
					es = append(es, v)
				}
				return in.mk(Expr{Op: OpList, Args: es, Typ: e.Typ})
			}
		}
	case OpSym:
		if strings.HasPrefix(e.Name, "old:") {
			if v, ok := s.mem[it.contentAddr(e)]; ok && !it.stored(s, e) {
				return v
			}
		}
	case OpMake:
		if e.Name == "slice" {
			if v, ok := s.mem[it.contentAddr(e)]; ok {
				if !it.stored(s, e) {
					return v
				}
				if v.Op != OpList {
					return e
				}
				es := append([]*Expr{}, v.Args...)
				for c, x := range s.mem {
					if c.Op == OpIndexAddr && c.Args[0] == e {
						k, ok := c.Args[1].constInt()
						if !ok || k < 0 || k >= int64(len(es)) {
							return e
						}
						es[k] = x
					}
				}
				return in.mk(Expr{Op: OpList, Args: es, Typ: e.Typ})
			}
			if n, ok := in.lenOf(e).constInt(); ok && n <= 64 && it.epochOf(s, e) == "" {
				var es []*Expr
				st, ok := e.Typ.Underlying().(*types.Slice)
				if !ok {
					return e
				}
				for i := int64(0); i < n; i++ {
					a := it.indexAddr(e, in.intc(i), pointerTo(st.Elem()))
					if it.partial(s, a) && s.mem[a] == nil {
						return e
					}
					es = append(es, it.load(s, a, st.Elem()))
				}
				return in.mk(Expr{Op: OpList, Args: es, Typ: e.Typ})
			}
		}
	case OpAppend, OpList:
		if l := it.assigned(s, e); l != nil {
			return l
		}
		if e.Op == OpList {
			return e
		}
		a, b := it.snapshot(s, e.Args[0]), it.snapshot(s, e.Args[1])
		if a != e.Args[0] || b != e.Args[1] {
			return in.mk(Expr{Op: OpAppend, Args: []*Expr{a, b}, Typ: e.Typ})
		}
	}
	return e
}

// stored reports whether single elements of a list were written.
func (it *Interp) stored(s *State, l *Expr) bool {
	for c := range s.mem {
		if c.Op == OpIndexAddr && c.Args[0] == l {
			return true
		}
	}
	return false
}

// copyPart fills a new list made for two lists with one of them: first at its
// start, then behind it.
func (it *Interp) copyPart(s *State, dst, src *Expr) bool {
	in := it.in
	total := func(m, a, b *Expr) bool {
		d, ok := it.exact(s, in.lenOf(m), in.bin(token.ADD, a, b, types.Typ[types.Int]))
		return ok && d == 0
	}
	dst = stripChange(dst)
	if dst.Op == OpMake && dst.Name == "slice" {
		l := in.lenOf(dst)
		n := in.lenOf(src)
		var terms func(e *Expr, sign int, m map[*Expr]int)
		terms = func(e *Expr, sign int, m map[*Expr]int) {
			if e.Op == OpBin && e.Name == "+" {
				terms(e.Args[0], sign, m)
				terms(e.Args[1], sign, m)
				return
			}
			m[e] += sign
		}
		left := map[*Expr]int{}
		terms(l, 1, left)
		terms(n, -1, left)
		for _, c := range left {
			if c < 0 {
				return false
			}
		}
		for c := range s.mem {
			if underAddr(c, dst) {
				return false
			}
		}
		gap := in.mk(Expr{Op: OpSym, Name: "gap", Args: []*Expr{dst}, Typ: dst.Typ})
		s.mem[it.contentAddr(dst)] = in.mk(Expr{Op: OpAppend, Args: []*Expr{src, gap}, Typ: dst.Typ})
		return true
	}
	if dst.Op != OpSlice || dst.Args[1] == nil || dst.Args[2] != nil {
		return false
	}
	m := stripChange(dst.Args[0])
	if m.Op != OpMake || m.Name != "slice" {
		return false
	}
	c := s.mem[it.contentAddr(m)]
	if c == nil || c.Op != OpAppend || c.Args[1].Op != OpSym || c.Args[1].Name != "gap" {
		return false
	}
	if d, ok := it.exact(s, dst.Args[1], in.lenOf(c.Args[0])); !ok || d != 0 || !total(m, in.lenOf(c.Args[0]), in.lenOf(src)) {
		return false
	}
	s.mem[it.contentAddr(m)] = in.mk(Expr{Op: OpAppend, Args: []*Expr{c.Args[0], src}, Typ: m.Typ})
	return true
}

// sublist is a part of a list whose elements are known.
func (it *Interp) sublist(s *State, b, lo, hi *Expr, t types.Type) *Expr {
	l := stripChange(it.snapshot(s, b))
	if l.Op != OpList {
		return nil
	}
	i, j := int64(0), int64(len(l.Args))
	if lo != nil {
		n, ok := lo.constInt()
		if !ok {
			return nil
		}
		i = n
	}
	if hi != nil {
		n, ok := hi.constInt()
		if !ok {
			return nil
		}
		j = n
	}
	if i < 0 || i > j || j > int64(len(l.Args)) {
		return nil
	}
	r := it.in.mk(Expr{Op: OpList, Args: append([]*Expr{}, l.Args[i:j]...), Typ: t})
	if it.subs == nil {
		it.subs = map[*Expr]bool{}
	}
	if len(r.Args) > 0 {
		it.subs[r] = true
	}
	return r
}

// assigned is the content of a list of constant length whose elements were
// assigned after it was made.
func (it *Interp) assigned(s *State, e *Expr) *Expr {
	some := false
	for c := range s.mem {
		if c.Op == OpIndexAddr && c.Args[0] == e {
			some = true
			break
		}
	}
	st, ok := e.Typ.Underlying().(*types.Slice)
	if !some || !ok {
		return nil
	}
	n, ok := it.in.lenOf(e).constInt()
	if !ok || n > 64 {
		return nil
	}
	var es []*Expr
	for i := int64(0); i < n; i++ {
		es = append(es, it.load(s, it.indexAddr(e, it.in.intc(i), pointerTo(st.Elem())), st.Elem()))
	}
	return it.in.mk(Expr{Op: OpList, Args: es, Typ: e.Typ})
}

func (it *Interp) builtin(s *State, fr *Frame, instr ssa.CallInstruction, c *ssa.CallCommon, name string, args []*Expr, kind string) []exit {
	in := it.in
	ret := func(e *Expr) []exit {
		if e == nil {
			return []exit{{st: s}}
		}
		return []exit{{st: s, vals: []*Expr{e}}}
	}
	switch name {
	case "len":
		if m := stripChange(args[0]); m.Typ != nil {
			if _, ok := m.Typ.Underlying().(*types.Map); ok {
				if m.isNil() {
					return ret(in.intc(0))
				}
				if m.Op == OpMake && it.epochOf(s, m) == "" {
					// entries under keys known to differ
					n := int64(0)
					for c := range s.mem {
						if c.Op == OpMapCell && c.Args[0] == m {
							n++
						}
					}
					return ret(in.intc(n))
				}
				return ret(in.mk(Expr{Op: OpLen, Name: it.epochOf(s, m), Args: []*Expr{m}, Typ: types.Typ[types.Int]}))
			}
			if a, ok := m.Typ.Underlying().(*types.Array); ok {
				return ret(in.intc(a.Len()))
			}
			if p := derefT(m.Typ); p != nil {
				if a, ok := p.Underlying().(*types.Array); ok {
					return ret(in.intc(a.Len()))
				}
			}
		}
		return ret(in.lenOf(args[0]))
	case "cap":
		return ret(in.mk(Expr{Op: OpCap, Args: args, Typ: types.Typ[types.Int]}))
	case "append":
		if len(args) < 2 {
			return ret(args[0])
		}
		a, b := it.snapshot(s, args[0]), it.snapshot(s, args[1])
		if a.isNil() {
			a = in.mk(Expr{Op: OpList, Typ: c.Args[0].Type()})
		}
		if b.isNil() {
			b = in.mk(Expr{Op: OpList, Typ: c.Args[0].Type()})
		}
		if it.hooks.Call != nil {
			it.hooks.Call(s, &CallEv{Instr: instr, Fr: fr, Name: "append", Method: "append", Args: []*Expr{args[0], args[1]}, Kind: kind, Pos: instrPos(instr)})
		}
		if a.Op == OpList && b.Op == OpList {
			return ret(in.mk(Expr{Op: OpList, Args: append(append([]*Expr{}, a.Args...), b.Args...), Typ: c.Args[0].Type()}))
		}
		return ret(in.mk(Expr{Op: OpAppend, Args: []*Expr{a, b}, Typ: c.Args[0].Type()}))
	case "copy":
		if it.hooks.Call != nil {
			it.hooks.Call(s, &CallEv{Instr: instr, Fr: fr, Name: "copy", Method: "copy", Args: args, Kind: kind, Pos: instrPos(instr)})
		}
		dst, src := args[0], it.snapshot(s, args[1])
		if n, ok := in.lenOf(src).constInt(); ok && n == 0 {
			return ret(in.intc(0))
		}
		if dst.Op == OpMake && it.truth(s, in.eq(in.lenOf(dst), in.lenOf(src))) == 1 {
			for c := range s.mem {
				if underAddr(c, dst) {
					delete(s.mem, c)
				}
			}
			s.mem[it.contentAddr(dst)] = src
			return ret(in.lenOf(src))
		} else if it.copyPart(s, dst, src) {
			return ret(in.lenOf(src))
		} else {
			it.overwrite(s, dst, it.sitetag(fr, instr))
		}
		return ret(in.mk(Expr{Op: OpCall, Name: "copy", Args: []*Expr{in.lenOf(dst), in.lenOf(src)}, Typ: types.Typ[types.Int]}))
	case "delete":
		m := stripChange(args[0])
		if it.hooks.MapUpdate != nil {
			it.hooks.MapUpdate(s, fr, m, args[1], nil, instr)
		}
		for c := range s.mem {
			if c.Op == OpMapCell && c.Args[0] == m {
				delete(s.mem, c)
			}
		}
		for f := range s.facts {
			if f.Op == OpLookupOk && f.Args[0] == m {
				delete(s.facts, f)
			}
		}
		it.renameEff(s, it.sitetag(fr, instr))
		s.mark(m, it.sitetag(fr, instr))
		return ret(nil)
	case "clear":
		if it.hooks.Call != nil {
			it.hooks.Call(s, &CallEv{Instr: instr, Fr: fr, Name: "clear", Method: "clear", Args: args, Kind: kind, Pos: instrPos(instr)})
		}
		it.havoc(s, args[0], it.sitetag(fr, instr))
		return ret(nil)
	case "recover":
		// effective only in the deferred function itself
		if fr.deferred && s.panicking != nil {
			v := s.panicking
			s.panicking = nil
			if v.Op == OpIface || it.nilness(s, v) == -1 || it.nilPanics {
				return ret(v)
			}
			s.facts[in.eq(v, in.zero(v.Typ))] = false
			return ret(v)
		}
		return ret(in.zero(types.NewInterfaceType(nil, nil)))
	case "print", "println", "close":
		return ret(nil)
	case "ssa:wrapnilchk":
		if it.nilness(s, args[0]) == 1 {
			return nil
		}
		return ret(args[0])
	case "min", "max":
		return ret(in.mk(Expr{Op: OpCall, Name: name, Args: args, Typ: c.Signature().Results().At(0).Type()}))
	}
	it.undecided("unsupported builtin %s", name)
	return nil
}

// ---- loop heads ----

func (it *Interp) substMap(e *Expr, m map[*Expr]*Expr) *Expr {
	if r, ok := m[e]; ok {
		return r
	}
	if len(e.Args) == 0 {
		return e
	}
	changed := false
	args := make([]*Expr, len(e.Args))
	for i, a := range e.Args {
		if a == nil {
			continue
		}
		args[i] = it.substMap(a, m)
		changed = changed || args[i] != a
	}
	if !changed {
		return e
	}
	return it.in.rebuild(e, args)
}

func (it *Interp) joinHead(fr *Frame, blk *ssa.BasicBlock, s *State, hs map[headKey]*State) (*State, bool) {
	in := it.in
	for k := range s.env {
		if k.frame != fr.id {
			continue
		}
		if d, ok := k.v.(ssa.Instruction); ok && !d.Block().Dominates(blk) {
			delete(s.env, k)
		}
	}
	key := headKey{blk, s.autoKey()}
	var gens []string
	c := it.unrollKey(fr, blk, s)
	if it.objs != nil {
		c += it.objKey(fr, blk, s)
	}
	if c != "" {
		// the number of iterations is a constant: iterations stay apart
		key.auto += "|" + c
		if it.apart > 0 {
			// and so do the paths through them
			it.apart--
			key.auto += "#" + strconv.Itoa(it.apart)
		}
	}
	for _, o := range it.enclosing(fr.fn, blk) {
		// and so do the iterations of loops around this one
		if c := it.unrollKey(fr, o, s); c != "" {
			key.auto += "|" + strconv.Itoa(o.Index) + ":" + c
		}
	}
	key.auto += "|" + it.flagKey(fr, blk, s)
	for g, n := range s.gens {
		if g.frame == fr.id && g.blk != blk && n != 0 && g.blk.Dominates(blk) {
			// what came before that loop was joined again is covered by what comes after
			gens = append(gens, strconv.Itoa(g.blk.Index)+"#"+strconv.Itoa(n))
		}
	}
	sort.Strings(gens)
	key.auto += "|" + strings.Join(gens, ",")
	h := hs[key]
	first := blk.Instrs[0]
	// symbols of this head
	oldW := map[int]bool{}
	for w := range it.wTags {
		if w.Name != "" && strings.HasPrefix(w.Name, fmt.Sprintf("w:%d:%d:", fr.id, blk.Index)) {
			oldW[w.Tag] = true
		}
	}
	oldW[in.site(fr.id, first, "head")] = true
	var tags []int
	for t := range oldW {
		tags = append(tags, t)
	}
	sort.Ints(tags)
	if h == nil {
		if len(tags) > 1 {
			it.retag(s, it.oldOf, tags...)
		}
		s.setGen(genKey{fr.id, blk}, 0)
		hs[key] = s.clone()
		return s, true
	}
	it.joins++
	inc := s
	incR := inc.clone()
	it.retag(incR, it.oldOf, tags...)
	merged := h.clone()
	merged.path = inc.path
	changed := false
	lift := map[*Expr]*Expr{} // W -> incoming value
	from := map[*Expr]*Expr{} // W -> value at the head so far
	var created []*Expr
	createdFrom := map[*Expr][2]*Expr{}
	var raw *Expr // the incoming value before this head's symbols were renamed
	widen := func(name string, hv, iv *Expr, t types.Type) *Expr {
		n := fmt.Sprintf("w:%d:%d:%s", fr.id, blk.Index, name)
		w := in.mk(Expr{Op: OpSym, Name: n, Typ: t, Tag: in.site(fr.id, first, n), Pos: instrPos(first)})
		it.wTags[w] = true
		in.addCand(w, iv)
		if raw == nil {
			raw = iv
		}
		if raw != w && it.widenedValue(w, hv, raw) {
			changed = true
		}
		raw = nil
		lift[w] = iv
		from[w] = hv
		if hv != w {
			in.addCand(w, hv)
			created = append(created, w)
			createdFrom[w] = [2]*Expr{hv, iv}
			changed = true
		}
		return w
	}
	// own tells whether v is the symbol this head gave to the variable itself
	own := func(name string, v *Expr) bool {
		return v.Op == OpSym && it.wTags[v] && v.Name == fmt.Sprintf("w:%d:%d:%s", fr.id, blk.Index, name)
	}
	var eks []envKey
	for k := range h.env {
		eks = append(eks, k)
	}
	ours := func(k envKey) bool {
		phi, isPhi := k.v.(*ssa.Phi)
		return isPhi && k.frame == fr.id && phi.Block() == blk
	}
	sort.Slice(eks, func(i, j int) bool {
		if a, b := ours(eks[i]), ours(eks[j]); a != b {
			return a
		}
		if eks[i].frame != eks[j].frame {
			return eks[i].frame < eks[j].frame
		}
		a, b := eks[i].v.Name(), eks[j].v.Name()
		if len(a) != len(b) {
			return len(a) < len(b)
		}
		return a < b
	})
	// common finds an expression over the variables of the loop that stands
	// for both values
	var common func(hv, iv, ivr *Expr) *Expr
	common = func(hv, iv, ivr *Expr) *Expr {
		if hv == ivr {
			return hv
		}
		if hv == nil || iv == nil || ivr == nil {
			return nil
		}
		var found *Expr
		for w, x := range from {
			if x == hv && (lift[w] == iv || lift[w] == ivr) && (found == nil || w.ID < found.ID) {
				found = w
			}
		}
		if found != nil {
			return found
		}
		switch {
		case hv.Op == OpCall, hv.Op == OpField, hv.Op == OpLen:
		case hv.Op == OpRes && hv.Name == "reflect.MakeSlice" && hv.Tag == iv.Tag:
		default:
			return nil
		}
		if iv.Op != hv.Op || ivr.Op != hv.Op || iv.Name != hv.Name || len(iv.Args) != len(hv.Args) || len(ivr.Args) != len(hv.Args) || hv.Fn != iv.Fn || hv.Glob != iv.Glob {
			return nil
		}
		args := make([]*Expr, len(hv.Args))
		for i := range hv.Args {
			if hv.Args[i] == nil && iv.Args[i] == nil {
				continue
			}
			if args[i] = common(hv.Args[i], iv.Args[i], ivr.Args[i]); args[i] == nil {
				return nil
			}
		}
		return in.rebuild(hv, args)
	}
	for _, k := range eks {
		hv := h.env[k]
		phi, isPhi := k.v.(*ssa.Phi)
		iv, ok := inc.env[k]
		if !ok {
			delete(merged.env, k)
			changed = true
			continue
		}
		name := fmt.Sprintf("%d:%s", k.frame, k.v.Name())
		if isPhi && k.frame == fr.id && phi.Block() == blk {
			if hv != iv {
				merged.env[k] = widen(name, hv, iv, k.v.Type())
			} else if own(name, hv) {
				lift[hv] = iv
				from[hv] = hv
			}
			continue
		}
		if ivr := incR.env[k]; ivr != hv {
			e := common(hv, iv, ivr)
			if e == nil {
				e = it.commonType(hv, iv, from, lift)
			}
			if e != nil {
				if e != hv {
					merged.env[k] = e
					changed = true
				}
				continue
			}
			raw = iv
			merged.env[k] = widen(name, hv, ivr, k.v.Type())
		}
	}
	// variables of the rule
	ghosts := map[*Expr]bool{}
	for _, k := range sortedKeys(h.ghost) {
		hv, iv := h.ghost[k], inc.ghost[k]
		if iv == nil {
			delete(merged.ghost, k)
			changed = true
			continue
		}
		if x := lift[hv]; x != nil && !own("ghost:"+k, hv) {
			// the same as a variable of the loop
			if x == iv {
				continue
			}
		} else if hv != iv && isBoolT(hv.Typ) {
			same := false
			for _, w := range created {
				if createdFrom[w][0] == hv && createdFrom[w][1] == iv {
					merged.ghost[k] = w
					same = true
					break
				}
			}
			if same {
				continue
			}
		} else if hv == iv {
			continue
		}
		w := widen("ghost:"+k, hv, iv, hv.Typ)
		merged.ghost[k] = w
		ghosts[w] = true
	}
	// memory
	addrs := map[*Expr]bool{}
	for a := range h.mem {
		addrs[a] = true
	}
	for a := range incR.mem {
		addrs[a] = true
	}
	weak := map[*Expr]bool{}
	for a := range addrs {
		if it.hasOld(a) {
			// the address stands for several objects
			if a.Op == OpIndexAddr || a.Op == OpMapCell {
				weak[a.Args[0]] = true
			} else {
				weak[addrIdxBase(a)] = true
			}
		}
	}
	for b, m := range h.epoch {
		// what was given up at this head before stays given up
		if m == "h"+strconv.Itoa(in.site(fr.id, first, "head"))+"*" {
			weak[b] = true
		}
	}
	underWeak := func(a *Expr) bool {
		for a.Op == OpFieldAddr || a.Op == OpIndexAddr || a.Op == OpMapCell {
			a = a.Args[0]
			if weak[a] {
				return true
			}
		}
		return false
	}
	for _, a := range sortedExprs(addrs) {
		hv, hok := h.mem[a]
		iv, iok := incR.mem[a]
		if it.hasOld(a) || len(weak) > 0 && underWeak(a) {
			continue
		}
		if hok && iok && hv == iv {
			continue
		}
		if hok && inc.mem[a] == hv && own("m"+strconv.Itoa(a.ID), hv) {
			// not assigned in this iteration
			lift[hv] = hv
			continue
		}
		t := derefT(a.Typ)
		if a.Op == OpMapCell && !(hok && iok) {
			if hok {
				delete(merged.mem, a)
				changed = true
			}
			if merged.epoch[a.Args[0]] == "" || !strings.Contains(merged.epoch[a.Args[0]], "h") {
				merged.epoch[a.Args[0]] = "h" + strconv.Itoa(in.site(fr.id, first, "head"))
				changed = true
			}
			continue
		}
		if t == nil {
			delete(merged.mem, a)
			continue
		}
		if !hok {
			if isStruct(t) {
				hv = it.loadRaw(h, a, t)
			} else {
				hv = it.load(h, a, t)
			}
		}
		if !iok {
			if isStruct(t) {
				iv = it.loadRaw(incR, a, t)
			} else {
				iv = it.load(incR, a, t)
			}
		}
		if hv == iv {
			if !hok {
				merged.mem[a] = hv
			}
			continue
		}
		merged.mem[a] = widen("m"+strconv.Itoa(a.ID), hv, iv, t)
	}
	for _, b := range sortedExprs(weak) {
		mark := "h" + strconv.Itoa(in.site(fr.id, first, "head")) + "*"
		for c := range merged.mem {
			if underAddr(c, b) || c.Op == OpMapCell && c.Args[0] == b {
				delete(merged.mem, c)
				changed = true
			}
		}
		if merged.epoch[b] != mark {
			merged.epoch[b] = mark
			changed = true
		}
	}
	for a, v := range incR.epoch {
		if hv, ok := merged.epoch[a]; !ok {
			merged.epoch[a] = v
			changed = true
		} else if hv != v && !strings.HasPrefix(hv, "h") {
			m := "h" + strconv.Itoa(in.site(fr.id, first, "head"))
			if strings.HasSuffix(hv, "*") || strings.HasSuffix(v, "*") {
				m += "*"
			}
			merged.epoch[a] = m
			changed = true
		}
	}
	// facts
	for _, f := range sortedExprs(h.facts) {
		v := h.facts[f]
		g := it.substMap(f, lift)
		st := inc
		if g == f && !it.lifted(f, oldW, lift) {
			st = incR
		}
		t := it.truth(st, g)
		if t == 0 && g != f && st == inc {
			// a value from before the renaming
			t = it.truth(incR, g)
		}
		if t == 0 || (t == 1) != v {
			delete(merged.facts, f)
			changed = true
		}
	}
	for _, g := range created {
		// a variable that moves in step with one of the loop
		if !ghosts[g] {
			continue
		}
		for _, w := range created {
			if w == g || !isInteger(w.Typ) {
				continue
			}
			c1, ok1 := it.exact(h, createdFrom[g][0], createdFrom[w][0])
			c2, ok2 := it.exact(inc, createdFrom[g][1], createdFrom[w][1])
			if ok1 && ok2 && c1 == c2 {
				merged.facts[in.eq(g, in.addc(w, c1))] = true
			}
		}
	}
	for _, w := range created {
		hv, iv := createdFrom[w][0], createdFrom[w][1]
		var tmpl []*Expr
		if isInteger(w.Typ) {
			if _, ok := hv.constInt(); ok {
				tmpl = append(tmpl, in.lss(w, hv))
			}
			if iff, ok := blk.Instrs[len(blk.Instrs)-1].(*ssa.If); ok {
				if b, ok := iff.Cond.(*ssa.BinOp); ok {
					for _, o := range []ssa.Value{b.X, b.Y} {
						// the bound, when it does not change in the loop
						if e, ok := merged.env[envKey{fr.id, o}]; ok && !e.hasTag(w.Tag) && isInteger(e.Typ) {
							tmpl = append(tmpl, in.lss(e, w), in.lss(w, e))
						} else if c, ok := o.(*ssa.Const); ok && isInteger(c.Type()) {
							e := it.val(h, fr, c)
							tmpl = append(tmpl, in.lss(e, w), in.lss(w, e))
						} else if ln, ok := o.(*ssa.Call); ok {
							if bi, ok := ln.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" {
								if e, ok := merged.env[envKey{fr.id, ln.Call.Args[0]}]; ok {
									e = in.lenOf(e)
									tmpl = append(tmpl, in.lss(e, w), in.lss(w, e))
								}
							}
						}
					}
				}
			}
		} else if w.Typ != nil {
			switch w.Typ.Underlying().(type) {
			case *types.Pointer, *types.Slice, *types.Map, *types.Interface, *types.Signature:
				tmpl = append(tmpl, in.eq(w, in.zero(w.Typ)))
			}
			if _, ok := w.Typ.Underlying().(*types.Slice); ok {
				tmpl = append(tmpl, in.lss(in.lenOf(w), in.intc(1)))
			}
		}
		if isStringT(w.Typ) {
			tmpl = append(tmpl, in.lss(in.lenOf(w), in.intc(1)))
			for f, v := range h.facts {
				if v && f.Op == OpBin && f.Name == "==" {
					if f.Args[0] == hv && !it.hasOld(f.Args[1]) {
						tmpl = append(tmpl, in.eq(w, f.Args[1]))
					} else if f.Args[1] == hv && !it.hasOld(f.Args[0]) {
						tmpl = append(tmpl, in.eq(w, f.Args[0]))
					}
				}
			}
			sort.Slice(tmpl, func(i, j int) bool { return tmpl[i].ID < tmpl[j].ID })
		}
		for _, f := range tmpl {
			neg := false
			g := f
			for g.Op == OpNot {
				g, neg = g.Args[0], !neg
			}
			if g.Op == OpConst {
				continue
			}
			a := it.truth(h, in.subst(g, w, hv))
			b := it.truth(inc, in.subst(g, w, iv))
			if b == 0 {
				// a value from before the renaming
				b = it.truth(incR, in.subst(g, w, iv))
			}
			if a != 0 && a == b {
				merged.facts[g] = a == 1
			}
		}
	}
	// rule lists
	for k, l := range incR.lists {
		have := map[*Expr]bool{}
		for _, e := range merged.lists[k] {
			have[e] = true
		}
		for _, e := range l {
			if !have[e] {
				merged.push(k, e)
				changed = true
			}
		}
	}
	for k, d := range inc.defers {
		if len(d) != len(merged.defers[k]) {
			it.undecided("defer inside a loop in %s", fr.fn)
			return nil, false
		}
	}
	if !changed {
		return nil, false
	}
	merged.setGen(genKey{fr.id, blk}, h.gens[genKey{fr.id, blk}]+1)
	hs[key] = merged
	return merged.clone(), true
}

// lifted reports whether every symbol of the loop head in f stands for a
// variable with a known value.
func (it *Interp) lifted(f *Expr, tags map[int]bool, lift map[*Expr]*Expr) bool {
	all, some := true, false
	var rec func(e *Expr)
	rec = func(e *Expr) {
		if e == nil || !all {
			return
		}
		if lift[e] != nil {
			some = true
			return
		}
		for _, t := range append([]int{e.Tag}, nameTags(e)...) {
			if t != 0 && tags[t] {
				all = false
			}
		}
		for _, a := range e.Args {
			rec(a)
		}
	}
	rec(f)
	return all && some
}

// enclosing lists the heads of the other loops of fn that blk lies in.
func (it *Interp) enclosing(fn *ssa.Function, blk *ssa.BasicBlock) []*ssa.BasicBlock {
	if r, ok := it.around[blk]; ok {
		return r
	}
	var out []*ssa.BasicBlock
	for _, h := range fn.Blocks {
		if h == blk || !h.Dominates(blk) {
			continue
		}
		in := false
		for _, u := range h.Preds {
			if !h.Dominates(u) {
				continue
			}
			// natural loop of the back edge u -> h
			body := map[*ssa.BasicBlock]bool{h: true}
			work := []*ssa.BasicBlock{u}
			for len(work) > 0 {
				x := work[len(work)-1]
				work = work[:len(work)-1]
				if body[x] {
					continue
				}
				body[x] = true
				work = append(work, x.Preds...)
			}
			in = in || body[blk]
		}
		if in {
			out = append(out, h)
		}
	}
	it.around[blk] = out
	return out
}

// unrollKey returns the constant loop position when the condition that decides
// about another iteration has a constant value.
func (it *Interp) unrollKey(fr *Frame, blk *ssa.BasicBlock, s *State) string {
	iff, ok := blk.Instrs[len(blk.Instrs)-1].(*ssa.If)
	if !ok {
		return ""
	}
	// evaluate the pure instructions of the head block
	vals := map[ssa.Value]*Expr{}
	get := func(v ssa.Value) *Expr {
		if e, ok := vals[v]; ok {
			return e
		}
		return it.val(s, fr, v)
	}
	for _, in := range blk.Instrs {
		switch x := in.(type) {
		case *ssa.BinOp:
			vals[x] = it.in.bin(x.Op, get(x.X), get(x.Y), x.Type())
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
				if _, isMap := x.Call.Args[0].Type().Underlying().(*types.Map); !isMap {
					vals[x] = it.in.lenOf(get(x.Call.Args[0]))
				}
			}
		}
	}
	c := get(iff.Cond)
	for c.Op == OpNot {
		c = c.Args[0]
	}
	if c.Op != OpConst {
		return ""
	}
	key := ""
	for _, in := range blk.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		v := s.env[envKey{fr.id, p}]
		if n, ok := v.constInt(); ok {
			if n > 256 || n < -256 {
				return ""
			}
			key += p.Name() + "=" + strconv.FormatInt(n, 10) + ";"
		}
		if it.objs != nil && v != nil && v.Op == OpList && len(v.Args) <= 64 {
			// a list that is worked off
			key += p.Name() + "=@" + strconv.Itoa(v.ID) + ";"
		}
	}
	return key
}

// objKey keeps iterations apart that work on different known objects.
func (it *Interp) objKey(fr *Frame, blk *ssa.BasicBlock, s *State) string {
	key := ""
	for _, in := range blk.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if v := s.env[envKey{fr.id, p}]; v != nil && it.objs[v] {
			key += p.Name() + "=@" + strconv.Itoa(v.ID) + ";"
		}
	}
	return key
}

// follows tells whether a recursive call works on a known object.
func (it *Interp) follows(fr *Frame, ev *CallEv) bool {
	if it.hooks.Follow != nil && fr.depth <= 12 && it.hooks.Follow(ev) {
		return true
	}
	if it.objs == nil || fr.depth > 12 {
		return false
	}
	for _, a := range ev.Args {
		if it.objs[a] {
			return true
		}
	}
	return false
}

// flagKey keeps iterations apart that differ in a flag the loop carries: a
// boolean, an empty string, a nil.
func (it *Interp) flagKey(fr *Frame, blk *ssa.BasicBlock, s *State) string {
	key := ""
	for _, in := range blk.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		v := s.env[envKey{fr.id, p}]
		if v == nil || v.Typ == nil {
			continue
		}
		switch t := p.Type().Underlying().(type) {
		case *types.Basic:
			switch {
			case t.Info()&types.IsBoolean != 0:
				key += p.Name() + strconv.Itoa(it.truth(s, v))
			case t.Info()&types.IsString != 0:
				if c, ok := v.constStr(); ok && c == "" {
					key += p.Name() + "e"
				}
			}
		case *types.Pointer, *types.Interface:
			if it.nilness(s, v) == 1 {
				key += p.Name() + "n"
			}
		}
	}
	return key
}

func (it *Interp) hasOld(e *Expr) bool {
	if e.Op == OpSym && strings.HasPrefix(e.Name, "old:") {
		return true
	}
	for _, a := range e.Args {
		if a != nil && it.hasOld(a) {
			return true
		}
	}
	return false
}

// addrIdxBase returns the array or object part of an address that does not
// involve an older generation.
func addrIdxBase(a *Expr) *Expr {
	for a.Op == OpFieldAddr {
		a = a.Args[0]
	}
	if a.Op == OpIndexAddr {
		return a.Args[0]
	}
	return a
}
