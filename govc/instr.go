package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (f *frame) execBlock(b *ssa.BasicBlock, st *State, pc *Term, within *loopRun) {
	x := f.x
	for _, in := range b.Instrs {
		switch v := in.(type) {
		case *ssa.Phi, *ssa.DebugRef:
			continue
		case *ssa.If:
			c, ok := f.val(v.Cond, st).(*Term)
			if !ok {
				unsup("condition")
			}
			f.edge(b, b.Succs[0], mkAnd(pc, c), st, within)
			f.edge(b, b.Succs[1], mkAnd(pc, mkNot(c)), st, within)
			return
		case *ssa.Jump:
			f.edge(b, b.Succs[0], pc, st, within)
			return
		case *ssa.Return:
			e := exit{pc: pc, st: st.clone()}
			for _, r := range v.Results {
				e.vals = append(e.vals, f.val(r, st))
			}
			e.blk = b
			f.returns = append(f.returns, e)
			return
		case *ssa.Panic:
			x.safety("panic", "explicit panic is unreachable", v.Pos(), pc, tFalse)
			return
		default:
			pc = f.exec(in, st, pc)
			if pc == tFalse {
				return
			}
		}
	}
}

func (f *frame) set(v ssa.Value, val Val) { f.env[v] = val }

func (f *frame) term(v ssa.Value, st *State) *Term {
	r := f.val(v, st)
	t, ok := r.(*Term)
	if !ok {
		if p, bad := r.(Poison); bad {
			unsup("use of %s", p.why)
		}
		unsup("%s: expected scalar, got %T", v, r)
	}
	return t
}

func (f *frame) exec(in ssa.Instruction, st *State, pc *Term) *Term {
	x := f.x
	switch v := in.(type) {
	case *ssa.Alloc:
		al := x.alloc(deref(v.Type()), st, v.Comment)
		f.set(v, al)
		if deref(v.Type()).String() == "bytes.Buffer" {
			x.assumeNote("a new bytes.Buffer is empty")
			h := x.getHeap(st, "G|outlen", arrSort(sInt, x.idxSort()))
			st.heaps["G|outlen"] = mkStore(h, al.Ref, x.idxConst(0))
		}
	case *ssa.Store:
		a := f.addr(v.Addr, st, pc, v.Pos())
		val := f.val(v.Val, st)
		if p, bad := val.(Poison); bad {
			unsup("store of %s", p.why)
		}
		x.store(st, a, val)
	case *ssa.UnOp:
		return f.unop(v, st, pc)
	case *ssa.BinOp:
		return f.binop(v, st, pc)
	case *ssa.FieldAddr:
		a := f.addr(v.X, st, pc, v.Pos())
		su := a.T.Underlying().(*types.Struct)
		fl := su.Field(v.Field)
		r := a
		if b, ok := x.interior[a.Ref]; ok && !a.IsElem && len(a.Path) == 0 {
			r = b
		}
		r.Path = append(append([]pstep{}, r.Path...), pstep{field: v.Field, name: fl.Name(), t: fl.Type()})
		r.T = fl.Type()
		f.set(v, r)
	case *ssa.Field:
		s, ok := f.val(v.X, st).(StructV)
		if !ok {
			unsup("field of %T", f.val(v.X, st))
		}
		f.set(v, s.F[v.Field])
	case *ssa.IndexAddr:
		i := x.toIdx(f.term(v.Index, st), v.Index.Type())
		switch b := f.val(v.X, st).(type) {
		case SliceV:
			x.safety("index", fmt.Sprintf("index in range of %s", describe(v.X)), v.Pos(), pc, mkAnd(x.leI(x.idxConst(0), i, true), x.ltI(i, b.Len, true)))
			f.set(v, AddrV{Ref: b.Arr, Root: b.Elem, IsElem: true, Idx: mkAdd(b.Off, i), T: b.Elem})
		case AddrV:
			arr := b.T.Underlying().(*types.Array)
			x.safety("index", "array index in range", v.Pos(), pc, mkAnd(x.leI(x.idxConst(0), i, true), x.ltI(i, x.idxConst(arr.Len()), true)))
			if !b.IsElem && len(b.Path) == 0 {
				f.set(v, AddrV{Ref: b.Ref, Root: arr.Elem(), IsElem: true, Idx: i, T: arr.Elem()})
			} else {
				r := b
				r.Path = append(append([]pstep{}, b.Path...), pstep{idx: i, t: arr.Elem()})
				r.T = arr.Elem()
				f.set(v, r)
			}
		default:
			unsup("IndexAddr on %T", b)
		}
	case *ssa.Index:
		i := x.toIdx(f.term(v.Index, st), v.Index.Type())
		switch b := f.val(v.X, st).(type) {
		case *Term:
			if b.sort == sStr {
				x.safety("index", "string index in range", v.Pos(), pc, mkAnd(x.leI(x.idxConst(0), i, true), x.ltI(i, x.slen(b), true)))
				f.set(v, x.sat(b, i))
				return pc
			}
			unsup("index of %s", b.sort)
		case ArrayV:
			x.safety("index", "array index in range", v.Pos(), pc, mkAnd(x.leI(x.idxConst(0), i, true), x.ltI(i, x.idxConst(b.T.Len()), true)))
			var ts []*Term
			for _, l := range b.Leaves {
				ts = append(ts, mkSelect(l, i))
			}
			r := x.fromLeaves(b.T.Elem(), ts)
			x.typeFacts(r, b.T.Elem(), st)
			f.set(v, r)
		default:
			unsup("Index on %T", b)
		}
	case *ssa.Slice:
		f.sliceOp(v, st, pc)
	case *ssa.MakeSlice:
		n := x.toIdx(f.term(v.Len, st), v.Len.Type())
		c := x.toIdx(f.term(v.Cap, st), v.Cap.Type())
		if v.Len == v.Cap {
			c = n
		}
		x.safety("makeslice", "make: length not negative", v.Pos(), pc, mkAnd(x.leI(x.idxConst(0), n, true), x.leI(n, c, true)))
		e := v.Type().Underlying().(*types.Slice).Elem()
		// a successful make is bounded by the address space
		if !x.bv {
			x.fact(mkImp(pc, mkLe(c, mkBig(new(big.Int).Lsh(big.NewInt(1), 62)))))
		} else {
			x.fact(mkImp(pc, x.leI(c, mkBV(big.NewInt(1<<40), 64), true)))
		}
		r := x.newRef(st)
		for _, l := range x.leaves(e) {
			k := elemKey(e, l.path)
			s := arrSort(sInt, arrSort(x.idxSort(), l.sort))
			h := x.getHeap(st, k, s)
			st.heaps[k] = mkStore(h, r, mkConstArr(arrSort(x.idxSort(), l.sort), x.zeroSort(l.sort)))
		}
		f.set(v, SliceV{e, r, x.idxConst(0), n, c})
	case *ssa.MakeMap:
		r := x.newRef(st)
		m := v.Type().Underlying().(*types.Map)
		dk, ks := x.mapDom(st, m)
		h := x.getHeap(st, dk, arrSort(sInt, arrSort(ks, sBool)))
		st.heaps[dk] = mkStore(h, r, mkConstArr(arrSort(ks, sBool), tFalse))
		lk := "M|" + typeKey(m) + "|len"
		lh := x.getHeap(st, lk, arrSort(sInt, x.idxSort()))
		st.heaps[lk] = mkStore(lh, r, x.idxConst(0))
		f.set(v, r)
	case *ssa.MapUpdate:
		m := f.term(v.Map, st)
		x.safety("nil", "map is not nil", v.Pos(), pc, mkNot(mkEq(m, mkInt(0))))
		x.mapUpdate(st, v.Map.Type().Underlying().(*types.Map), m, f.val(v.Key, st), f.val(v.Value, st))
	case *ssa.Lookup:
		if xs, ok := f.val(v.X, st).(*Term); ok && xs.sort == sStr {
			i := x.toIdx(f.term(v.Index, st), v.Index.Type())
			x.safety("index", "string index in range", v.Pos(), pc, mkAnd(x.leI(x.idxConst(0), i, true), x.ltI(i, x.slen(xs), true)))
			f.set(v, x.sat(xs, i))
			return pc
		}
		m := f.term(v.X, st)
		mt := v.X.Type().Underlying().(*types.Map)
		val, ok := x.mapLookup(st, mt, m, f.val(v.Index, st))
		if v.CommaOk {
			f.set(v, TupleV{val, ok})
		} else {
			f.set(v, val)
		}
	case *ssa.Range:
		if mt, ok := v.X.Type().Underlying().(*types.Map); ok {
			f.set(v, f.newMapIter(v, mt, st))
		} else {
			f.set(v, f.val(v.X, st))
		}
	case *ssa.Next:
		f.next(v, st, pc)
	case *ssa.MakeInterface:
		f.set(v, IfaceV{Known: v.X.Type(), V: f.val(v.X, st)})
		if iv, ok := f.val(v.X, st).(IfaceV); ok {
			f.set(v, iv)
		}
	case *ssa.ChangeInterface, *ssa.ChangeType:
		op := in.(ssa.Value)
		var src ssa.Value
		switch c := in.(type) {
		case *ssa.ChangeInterface:
			src = c.X
		case *ssa.ChangeType:
			src = c.X
		}
		val := f.val(src, st)
		switch a := val.(type) {
		case StructV:
			a.T = op.Type()
			val = a
		case AddrV:
			if len(a.Path) == 0 && !a.IsElem {
				// pointers between types with identical underlying types share no heap here
				if typeKey(a.Root) != typeKey(deref(op.Type())) {
					unsup("pointer type change")
				}
			}
		case SliceV:
			e := op.Type().Underlying().(*types.Slice).Elem()
			if typeKey(e) != typeKey(a.Elem) {
				unsup("slice type change")
			}
		}
		f.set(op, val)
	case *ssa.Convert:
		return f.convert(v, st, pc)
	case *ssa.MultiConvert:
		unsup("multiconvert")
	case *ssa.SliceToArrayPointer:
		unsup("slice to array pointer")
	case *ssa.TypeAssert:
		return f.typeAssert(v, st, pc)
	case *ssa.Extract:
		t, ok := f.val(v.Tuple, st).(TupleV)
		if !ok {
			unsup("extract from %T", f.val(v.Tuple, st))
		}
		f.set(v, t[v.Index])
	case *ssa.MakeClosure:
		c := FuncV{Fn: v.Fn.(*ssa.Function)}
		for _, b := range v.Bindings {
			c.Bind = append(c.Bind, f.val(b, st))
		}
		f.set(v, c)
	case *ssa.Call:
		r, npc := f.call(v.Common(), v, st, pc, v.Pos())
		f.set(v, r)
		return npc
	case *ssa.Defer:
		d := deferred{pc: pc, call: &v.Call, instr: v}
		if v.Call.IsInvoke() {
			d.recv = f.val(v.Call.Value, st)
		} else {
			d.fn = f.val(v.Call.Value, st)
		}
		for _, a := range v.Call.Args {
			d.args = append(d.args, f.val(a, st))
		}
		f.defers = append(f.defers, d)
	case *ssa.RunDefers:
		return f.runDefers(st, pc)
	case *ssa.Go, *ssa.Send, *ssa.Select, *ssa.MakeChan:
		unsup("concurrency instruction %T", v)
	default:
		unsup("instruction %T", in)
	}
	return pc
}

func describe(v ssa.Value) string {
	switch a := v.(type) {
	case *ssa.UnOp:
		return describe(a.X)
	case *ssa.FieldAddr:
		return describe(a.X) + "." + deref(a.X.Type()).Underlying().(*types.Struct).Field(a.Field).Name()
	case *ssa.Parameter:
		return a.Name()
	case *ssa.Phi:
		return a.Comment
	case *ssa.Alloc:
		return a.Comment
	}
	return v.Name()
}

// runDefers runs deferred calls in reverse order.
func (f *frame) runDefers(st *State, pc *Term) *Term {
	x := f.x
	for i := len(f.defers) - 1; i >= 0; i-- {
		d := f.defers[i]
		if d.fn != nil {
			if fv, ok := d.fn.(FuncV); ok && fv.Fn != nil && strings.HasSuffix(fv.Fn.String(), "go-thrower.RecoverError") {
				continue // no effect when nothing was thrown
			}
		}
		// the defer statement was executed iff d.pc held; on this path it is decided
		g := mkAnd(pc, d.pc)
		if g == tFalse {
			continue
		}
		s2 := st.clone()
		x.inDefer++
		_, npc := f.callWith(d.call, nil, d.fn, d.recv, d.args, s2, g, d.instr.Pos())
		x.inDefer--
		if g == pc {
			*st = *s2
			pc = npc
			continue
		}
		m := x.mergeStates([]*Term{d.pc, mkNot(d.pc)}, []*State{s2, st})
		*st = *m
		_ = npc
	}
	return pc
}

func (x *Ctx) newRef(st *State) *Term {
	r := st.alloc
	st.alloc = mkAdd(st.alloc, mkInt(1))
	return r
}

func (x *Ctx) alloc(t types.Type, st *State, hint string) AddrV {
	r := x.newRef(st)
	a := AddrV{Ref: r, Root: t, T: t}
	if arr, ok := t.Underlying().(*types.Array); ok {
		for _, l := range x.leaves(arr.Elem()) {
			k := elemKey(arr.Elem(), l.path)
			h := x.getHeap(st, k, arrSort(sInt, arrSort(x.idxSort(), l.sort)))
			st.heaps[k] = mkStore(h, r, mkConstArr(arrSort(x.idxSort(), l.sort), x.zeroSort(l.sort)))
		}
		return a
	}
	x.store(st, a, x.zero(t))
	// ghost state of a new object starts empty
	return a
}

// addr evaluates a pointer operand that is about to be dereferenced.
func (f *frame) addr(v ssa.Value, st *State, pc *Term, pos token.Pos) AddrV {
	r := f.val(v, st)
	a, ok := r.(AddrV)
	if !ok {
		if p, bad := r.(Poison); bad {
			unsup("dereference of %s", p.why)
		}
		unsup("dereference of %T", r)
	}
	if !a.IsElem && len(a.Path) == 0 {
		if f.x.knownNonNil(a.Ref) {
			return a
		}
		f.x.safety("nil", describe(v)+" is not nil", pos, pc, mkNot(mkEq(a.Ref, mkInt(0))))
	}
	return a
}

func (x *Ctx) knownNonNil(r *Term) bool {
	if isConst(r) && r.num.Sign() > 0 {
		return true
	}
	b := allocBase(r)
	if b == nil {
		return false
	}
	if b == x.alloc0 {
		return true
	}
	_, ok := allocAbove[b]
	return ok
}

func (x *Ctx) toIdx(t *Term, ty types.Type) *Term {
	if x.bv {
		w, s, _ := intInfo(ty)
		return x.bvResize(t, w, 64, s)
	}
	return t
}

func (x *Ctx) bvResize(t *Term, from, to int, signed bool) *Term {
	if from == to {
		return t
	}
	if isConst(t) {
		n := new(big.Int).Set(t.num)
		if signed && n.Bit(from-1) == 1 {
			n.Sub(n, new(big.Int).Lsh(big.NewInt(1), uint(from)))
		}
		return mkBV(n, to)
	}
	if from > to {
		return raw(fmt.Sprintf("(_ extract %d 0)", to-1), bvSort(to), t)
	}
	if signed {
		return raw(fmt.Sprintf("(_ sign_extend %d)", to-from), bvSort(to), t)
	}
	return raw(fmt.Sprintf("(_ zero_extend %d)", to-from), bvSort(to), t)
}

func (f *frame) unop(v *ssa.UnOp, st *State, pc *Term) *Term {
	x := f.x
	switch v.Op {
	case token.MUL:
		if g, ok := v.X.(*ssa.Global); ok && x.w.constGlobal(g) {
			f.set(v, x.globalVal(g, st))
			return pc
		}
		a := f.addr(v.X, st, pc, v.Pos())
		f.set(v, x.load(st, a))
	case token.NOT:
		f.set(v, mkNot(f.term(v.X, st)))
	case token.SUB:
		t := f.term(v.X, st)
		switch {
		case isBV(t.sort):
			f.set(v, mkNeg(t))
		case t.sort == sInt:
			f.set(v, x.arith(mkNeg(t), v.Type(), v.Pos(), pc, "negation"))
		default:
			f.set(v, mkApp("fneg_"+t.sort, t.sort, t))
		}
	case token.XOR:
		t := f.term(v.X, st)
		if isBV(t.sort) {
			f.set(v, raw("bvnot", t.sort, t))
		} else {
			_, signed, _ := intInfo(v.Type())
			if signed {
				f.set(v, mkSub(mkInt(-1), t))
			} else {
				_, hi, _ := intRange(v.Type())
				f.set(v, mkSub(mkBig(hi), t))
			}
		}
	default:
		unsup("unop %s", v.Op)
	}
	return pc
}

// constant globals: never assigned outside package initialisation
func (x *Ctx) globalVal(g *ssa.Global, st *State) Val {
	t := deref(g.Type())
	var ts []*Term
	for _, l := range x.leaves(t) {
		ts = append(ts, mkVar("glob_"+g.String()+l.path, l.sort))
	}
	r := x.fromLeaves(t, ts)
	x.typeFacts(r, t, nil)
	for _, l := range ts {
		if l.sort == sInt && len(ts) == 1 {
			x.refFacts(l, &State{alloc: x.alloc0})
		}
	}
	if iv, ok := r.(IfaceV); ok && iv.Known == nil {
		if x.w.initNonNil(g) {
			x.fact(mkNot(raw("=", sBool, iv.T, nilAny)))
			x.fact(mkLt(mkInt(0), typOf(iv.T)))
		}
	}
	if a, ok := r.(AddrV); ok && x.w.initNonNil(g) {
		x.fact(mkLt(mkInt(0), a.Ref))
	}
	return r
}

// arith applies the overflow policy to a mathematical result.
func (x *Ctx) arith(t *Term, ty types.Type, pos token.Pos, pc *Term, what string) *Term {
	if t.sort != sInt {
		return t
	}
	lo, hi, ok := intRange(ty)
	if !ok {
		return t
	}
	if isConst(t) && t.num.Cmp(lo) >= 0 && t.num.Cmp(hi) <= 0 {
		return t
	}
	switch x.con.Overflow {
	case "wrap":
		return x.wrap(t, ty)
	case "ignore":
		x.assumeNote("machine arithmetic treated as mathematical (no overflow)")
		return t
	}
	if w, s, _ := intInfo(ty); w < 64 || (!s && false) {
		// narrow types: exact wrap-around semantics
		return x.wrap(t, ty)
	}
	if !x.pure {
		x.oblige("overflow", what+" does not overflow", pos, pc, mkAnd(mkLe(mkBig(lo), t), mkLe(t, mkBig(hi))))
	}
	return t
}

func (x *Ctx) wrap(t *Term, ty types.Type) *Term {
	lo, hi, ok := intRange(ty)
	if !ok || t.sort != sInt {
		return t
	}
	if isConst(t) && t.num.Cmp(lo) >= 0 && t.num.Cmp(hi) <= 0 {
		return t
	}
	w, s, _ := intInfo(ty)
	m := new(big.Int).Lsh(big.NewInt(1), uint(w))
	var r *Term
	if s {
		h := new(big.Int).Lsh(big.NewInt(1), uint(w-1))
		r = mkSub(mkModE(mkAdd(t, mkBig(h)), mkBig(m)), mkBig(h))
	} else {
		r = mkModE(t, mkBig(m))
	}
	if isConst(r) {
		return r
	}
	return mkIte(mkAnd(mkLe(mkBig(lo), t), mkLe(t, mkBig(hi))), t, r)
}

func pow2(k int) *big.Int { return new(big.Int).Lsh(big.NewInt(1), uint(k)) }

func isPow2(n *big.Int) (int, bool) {
	if n.Sign() <= 0 {
		return 0, false
	}
	k := n.BitLen() - 1
	return k, pow2(k).Cmp(n) == 0
}

func (x *Ctx) bitAnd(a, b *Term, ty types.Type) *Term {
	if isConst(a) {
		a, b = b, a
	}
	if isConst(a) && isConst(b) {
		return mkBig(new(big.Int).And(a.num, b.num))
	}
	if isConst(b) {
		w, signed, _ := intInfo(ty)
		n := b.num
		if n.Sign() == 0 {
			return mkInt(0)
		}
		if k, ok := isPow2(new(big.Int).Add(n, big.NewInt(1))); ok {
			return mkModE(a, mkBig(pow2(k))) // low mask
		}
		// ^(2^k-1): clear low bits
		var inv *big.Int
		if n.Sign() < 0 {
			inv = new(big.Int).Neg(n) // 2^k
		} else if !signed {
			inv = new(big.Int).Sub(pow2(w), n)
		}
		if inv != nil {
			if k, ok := isPow2(inv); ok {
				return mkSub(a, mkModE(a, mkBig(pow2(k))))
			}
		}
		// single bit 2^k, or a contiguous field
		if n.Sign() > 0 {
			k := int(n.TrailingZeroBits())
			if kk, ok := isPow2(new(big.Int).Add(new(big.Int).Rsh(n, uint(k)), big.NewInt(1))); ok {
				return mkMul(mkBig(pow2(k)), mkModE(mkDivE(a, mkBig(pow2(k))), mkBig(pow2(kk))))
			}
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	t := mkApp("bitand", sInt, a, b)
	if !t.hasB {
		x.fact(mkImp(mkAnd(mkLe(mkInt(0), a), mkLe(mkInt(0), b)), mkAnd(mkLe(mkInt(0), t), mkLe(t, a), mkLe(t, b))))
	}
	return t
}

func (x *Ctx) bitOr(a, b *Term, ty types.Type) *Term {
	if isConst(a) && isConst(b) {
		return mkBig(new(big.Int).Or(a.num, b.num))
	}
	if isConst(a) && a.num.Sign() == 0 {
		return b
	}
	if isConst(b) && b.num.Sign() == 0 {
		return a
	}
	if a == b {
		return a
	}
	t := mkApp("bitor", sInt, a, b)
	if !t.hasB {
		x.fact(mkImp(mkAnd(mkLe(mkInt(0), a), mkLe(mkInt(0), b)), mkAnd(mkLe(a, t), mkLe(b, t), mkLe(t, mkAdd(a, b)))))
	}
	// disjoint bits: sum
	for _, p := range [][2]*Term{{a, b}, {b, a}} {
		lowT, highT := p[0], p[1]
		k := trailingZeros(highT)
		if k > 0 {
			return mkIte(mkAnd(mkLe(mkInt(0), lowT), mkLt(lowT, mkBig(pow2(k)))), mkAdd(lowT, highT), t)
		}
		// shifted by a variable: a multiple of that power (also after wrapping)
		if pw := x.shiftOf[highT]; pw != nil {
			return mkIte(mkAnd(mkLe(mkInt(0), lowT), mkLt(lowT, pw), mkLe(mkInt(0), highT)), mkAdd(lowT, highT), t)
		}
	}
	return t
}

// trailingZeros: number of low bits syntactically known to be zero.
func trailingZeros(t *Term) int {
	switch t.op {
	case "const":
		if t.num.Sign() == 0 {
			return 0
		}
		return int(t.num.TrailingZeroBits())
	case "lin":
		m := 1000
		if t.num.Sign() != 0 {
			m = int(t.num.TrailingZeroBits())
		}
		for i, a := range t.args {
			k := int(t.coef[i].TrailingZeroBits()) + trailingZeros(a)
			if k < m {
				m = k
			}
		}
		return m
	case "ite":
		a, b := trailingZeros(t.args[1]), trailingZeros(t.args[2])
		if a < b {
			return a
		}
		return b
	case "mod":
		if isConst(t.args[1]) {
			if k, ok := isPow2(t.args[1].num); ok {
				z := trailingZeros(t.args[0])
				if z < k {
					return z
				}
				return k
			}
		}
	}
	return 0
}

func (f *frame) binop(v *ssa.BinOp, st *State, pc *Term) *Term {
	x := f.x
	a, b := f.val(v.X, st), f.val(v.Y, st)
	switch v.Op {
	case token.EQL, token.NEQ:
		e := x.equal(a, b, v.X.Type())
		if v.Op == token.NEQ {
			e = mkNot(e)
		}
		f.set(v, e)
		return pc
	}
	p, ok1 := a.(*Term)
	q, ok2 := b.(*Term)
	if !ok1 || !ok2 {
		unsup("binop %s on %T,%T", v.Op, a, b)
	}
	t := v.X.Type()
	if p.sort == sStr {
		switch v.Op {
		case token.ADD:
			f.set(v, x.concat(p, q))
		case token.LSS, token.GTR, token.LEQ, token.GEQ:
			var r *Term
			switch v.Op {
			case token.LSS:
				r = mkApp("strlt", sBool, p, q)
			case token.GTR:
				r = mkApp("strlt", sBool, q, p)
			case token.LEQ:
				r = mkNot(mkApp("strlt", sBool, q, p))
			case token.GEQ:
				r = mkNot(mkApp("strlt", sBool, p, q))
			}
			f.set(v, r)
		}
		return pc
	}
	if p.sort == "F32" || p.sort == "F64" {
		switch v.Op {
		case token.ADD, token.SUB, token.MUL, token.QUO:
			f.set(v, mkApp("f"+v.Op.String()+p.sort, p.sort, p, q))
		default:
			f.set(v, mkApp("f"+v.Op.String()+p.sort, sBool, p, q))
		}
		return pc
	}
	if p.sort == sBool {
		switch v.Op {
		case token.AND:
			f.set(v, mkAnd(p, q))
		case token.OR:
			f.set(v, mkOr(p, q))
		default:
			unsup("bool op")
		}
		return pc
	}
	w, signed, _ := intInfo(t)
	if v.Op == token.SHL || v.Op == token.SHR {
		_, ysigned, _ := intInfo(v.Y.Type())
		if ysigned {
			z := mkInt(0)
			if isBV(q.sort) {
				z = mkBV(new(big.Int), bvWidth(q.sort))
			}
			x.safety("shift", "shift count not negative", v.Pos(), pc, x.leI(z, q, true))
		}
	}
	if x.bv {
		f.set(v, x.bvBin(v, p, q, w, signed, pc))
		return pc
	}
	switch v.Op {
	case token.ADD:
		f.set(v, x.arith(mkAdd(p, q), t, v.Pos(), pc, "addition"))
	case token.SUB:
		f.set(v, x.arith(mkSub(p, q), t, v.Pos(), pc, "subtraction"))
	case token.MUL:
		f.set(v, x.arith(mkMul(p, q), t, v.Pos(), pc, "multiplication"))
	case token.QUO, token.REM:
		x.safety("div", "divisor is not zero", v.Pos(), pc, mkNot(mkEq(q, mkInt(0))))
		if v.Op == token.QUO {
			f.set(v, x.quo(p, q, signed))
		} else {
			f.set(v, x.rem(p, q, signed))
		}
	case token.LSS:
		f.set(v, mkLt(p, q))
	case token.LEQ:
		f.set(v, mkLe(p, q))
	case token.GTR:
		f.set(v, mkLt(q, p))
	case token.GEQ:
		f.set(v, mkLe(q, p))
	case token.AND:
		f.set(v, x.bitAnd(p, q, t))
	case token.AND_NOT:
		if isConst(q) {
			n := new(big.Int).Not(q.num)
			if !signed {
				n = new(big.Int).Mod(n, pow2(w))
			}
			f.set(v, x.bitAnd(p, mkBig(n), t))
		} else {
			f.set(v, mkApp("bitandnot", sInt, p, q))
		}
	case token.OR:
		f.set(v, x.bitOr(p, q, t))
	case token.XOR:
		if isConst(p) && isConst(q) {
			f.set(v, mkBig(new(big.Int).Xor(p.num, q.num)))
		} else {
			r := mkApp("bitxor", sInt, p, q)
			f.set(v, r)
			x.typeFacts(r, t, st)
		}
	case token.SHL:
		if isConst(q) {
			k := int(q.num.Int64())
			if k >= w {
				f.set(v, mkInt(0))
			} else {
				r := mkMul(p, mkBig(pow2(k)))
				f.set(v, x.wrap(r, t))
			}
		} else {
			pw := x.pow2t(q)
			r := mkIte(mkLt(q, mkInt(int64(w))), x.wrap(mkMul(p, pw), t), mkInt(0))
			if x.shiftOf == nil {
				x.shiftOf = map[*Term]*Term{}
			}
			x.shiftOf[r] = pw
			f.set(v, r)
		}
	case token.SHR:
		if isConst(q) {
			k := int(q.num.Int64())
			if k >= w {
				if signed {
					k = w
				} else {
					f.set(v, mkInt(0))
					return pc
				}
			}
			f.set(v, mkDivE(p, mkBig(pow2(k))))
		} else {
			f.set(v, mkDivE(p, x.pow2t(q)))
		}
	default:
		unsup("binop %s", v.Op)
	}
	return pc
}

func (x *Ctx) pow2t(k *Term) *Term {
	if isConst(k) && k.num.Sign() >= 0 && k.num.Cmp(big.NewInt(4096)) < 0 {
		return mkBig(pow2(int(k.num.Int64())))
	}
	x.usePow2 = true
	t := mkApp("pow2", sInt, k)
	return t
}

func (x *Ctx) quo(p, q *Term, signed bool) *Term {
	if !signed {
		return mkDivE(p, q)
	}
	if isConst(q) && q.num.Sign() > 0 {
		return mkIte(mkLe(mkInt(0), p), mkDivE(p, q), mkNeg(mkDivE(mkNeg(p), q)))
	}
	return mkIte(mkAnd(mkLe(mkInt(0), p), mkLt(mkInt(0), q)), mkDivE(p, q), mkApp("tdiv", sInt, p, q))
}
func (x *Ctx) rem(p, q *Term, signed bool) *Term {
	if !signed {
		return mkModE(p, q)
	}
	if isConst(q) && q.num.Sign() > 0 {
		return mkIte(mkLe(mkInt(0), p), mkModE(p, q), mkNeg(mkModE(mkNeg(p), q)))
	}
	return mkIte(mkAnd(mkLe(mkInt(0), p), mkLt(mkInt(0), q)), mkModE(p, q), mkApp("tmod", sInt, p, q))
}

func (x *Ctx) bvBin(v *ssa.BinOp, p, q *Term, w int, signed bool, pc *Term) *Term {
	if v.Op == token.SHL || v.Op == token.SHR {
		qw := bvWidth(q.sort)
		if qw != w {
			if qw > w {
				// saturate
				big := raw("bvuge", sBool, q, mkBV(bigInt(int64(w)), qw))
				q = mkIte(big, mkBV(bigInt(int64(w)), w), x.bvResize(q, qw, w, false))
				if isConst(v2c(v.Y)) {
				}
			} else {
				q = x.bvResize(q, qw, w, false)
			}
		}
		if c, ok := v.Y.(*ssa.Const); ok {
			n := constBig(c.Value)
			if n.Cmp(bigInt(int64(w))) >= 0 {
				n = bigInt(int64(w))
			}
			q = mkBV(n, w)
		}
	}
	switch v.Op {
	case token.ADD:
		return mkAdd(p, q)
	case token.SUB:
		return mkSub(p, q)
	case token.MUL:
		return mkMul(p, q)
	case token.QUO, token.REM:
		x.safety("div", "divisor is not zero", v.Pos(), pc, mkNot(mkEq(q, mkBV(new(big.Int), w))))
		op := map[bool]map[token.Token]string{true: {token.QUO: "bvsdiv", token.REM: "bvsrem"}, false: {token.QUO: "bvudiv", token.REM: "bvurem"}}[signed][v.Op]
		return raw(op, p.sort, p, q)
	case token.LSS:
		return x.ltI(p, q, signed)
	case token.LEQ:
		return x.leI(p, q, signed)
	case token.GTR:
		return x.ltI(q, p, signed)
	case token.GEQ:
		return x.leI(q, p, signed)
	case token.AND:
		return raw("bvand", p.sort, p, q)
	case token.OR:
		return raw("bvor", p.sort, p, q)
	case token.XOR:
		return raw("bvxor", p.sort, p, q)
	case token.AND_NOT:
		return raw("bvand", p.sort, p, raw("bvnot", q.sort, q))
	case token.SHL:
		return raw("bvshl", p.sort, p, q)
	case token.SHR:
		if signed {
			return raw("bvashr", p.sort, p, q)
		}
		return raw("bvlshr", p.sort, p, q)
	}
	unsup("bv op %s", v.Op)
	return nil
}

func v2c(v ssa.Value) *Term   { return tTrue }
func bigInt(n int64) *big.Int { return big.NewInt(n) }

func (x *Ctx) equal(a, b Val, t types.Type) *Term {
	switch p := a.(type) {
	case *Term:
		q, ok := b.(*Term)
		if !ok {
			unsup("comparison of %T and %T", a, b)
		}
		switch p.sort {
		case sStr:
			return x.strEq(p, q)
		case "F32", "F64":
			return mkApp("feq"+p.sort, sBool, p, q)
		}
		return mkEq(p, q)
	case AddrV:
		if q, ok := b.(AddrV); ok {
			if (p.IsElem || len(p.Path) > 0) && isConst(q.Ref) && q.Ref.num.Sign() == 0 && len(q.Path) == 0 && !q.IsElem {
				return tFalse
			}
			if (q.IsElem || len(q.Path) > 0) && isConst(p.Ref) && p.Ref.num.Sign() == 0 && len(p.Path) == 0 && !p.IsElem {
				return tFalse
			}
			return mkEq(x.toLeaves(p, t)[0], x.toLeaves(q, t)[0])
		}
	case IfaceV:
		q, ok := b.(IfaceV)
		if !ok {
			// mixed interface / concrete comparison
			unsup("interface compared with %T", b)
		}
		return x.ifaceEq(p, q)
	case SliceV: // comparison with nil only
		return mkEq(p.Arr, mkInt(0))
	case FuncV:
		q, _ := b.(FuncV)
		if p.Fn != nil {
			return tFalse
		}
		if q.Fn != nil {
			return tFalse
		}
		return mkEq(p.T, q.T)
	case StructV:
		q := b.(StructV)
		var es []*Term
		u := p.T.Underlying().(*types.Struct)
		for i := range p.F {
			es = append(es, x.equal(p.F[i], q.F[i], u.Field(i).Type()))
		}
		return mkAnd(es...)
	case ArrayV:
		q := b.(ArrayV)
		var es []*Term
		for i := range p.Leaves {
			for k := int64(0); k < p.T.Len(); k++ {
				u, w := mkSelect(p.Leaves[i], x.idxConst(k)), mkSelect(q.Leaves[i], x.idxConst(k))
				if u.sort == sStr {
					es = append(es, x.strEq(u, w))
				} else {
					es = append(es, mkEq(u, w))
				}
			}
		}
		return mkAnd(es...)
	}
	unsup("comparison of %T and %T", a, b)
	return nil
}

func (x *Ctx) isNilIface(v IfaceV) *Term {
	if v.Known != nil {
		return tFalse
	}
	return mkEq(v.T, nilAny)
}

func (x *Ctx) ifaceEq(p, q IfaceV) *Term {
	if q.Known == nil && q.T == nilAny {
		return x.isNilIface(p)
	}
	if p.Known == nil && p.T == nilAny {
		return x.isNilIface(q)
	}
	if p.Known != nil && q.Known != nil {
		if !types.Identical(p.Known, q.Known) {
			return tFalse
		}
		return x.equal(p.V, q.V, p.Known)
	}
	// all values of a type without contents are equal
	if p.Known != nil && len(x.leaves(p.Known)) == 0 {
		p, q = q, p
	}
	if q.Known != nil && len(x.leaves(q.Known)) == 0 {
		return mkEq(mkApp("typ", sInt, x.box(p)), x.tag(q.Known))
	}
	return mkEq(x.box(p), x.box(q))
}

func (x *Ctx) concat(a, b *Term) *Term {
	if a == x.strConst("") {
		return b
	}
	if b == x.strConst("") {
		return a
	}
	r := mkApp("sconcat", sStr, a, b)
	if !r.hasB && !x.bv {
		la, lb := x.slen(a), x.slen(b)
		x.fact(mkEq(x.slen(r), mkAdd(la, lb)))
		i := freshBound("i", sInt)
		ri := mkApp("sat", sInt, r, i)
		x.fact(mkForall([]*Term{i}, mkAnd(
			mkImp(mkAnd(mkLe(mkInt(0), i), mkLt(i, la)), mkEq(ri, mkApp("sat", sInt, a, i))),
			mkImp(mkAnd(mkLe(la, i), mkLt(i, mkAdd(la, lb))), mkEq(ri, mkApp("sat", sInt, b, mkSub(i, la))))), []*Term{ri}))
	}
	return r
}

func (x *Ctx) substr(s, a, b *Term) *Term {
	if isConst(a) && a.num.Sign() == 0 && b == x.slen(s) {
		return s
	}
	r := mkApp("ssub", sStr, s, a, b)
	if !r.hasB {
		n := mkSub(b, a)
		x.fact(mkImp(mkAnd(x.leI(x.idxConst(0), a, true), x.leI(a, b, true), x.leI(b, x.slen(s), true)), mkEq(x.slen(r), n)))
		i := freshBound("i", x.idxSort())
		ri := mkApp("sat", x.byteSort(), r, i)
		x.fact(mkForall([]*Term{i}, mkImp(mkAnd(x.leI(x.idxConst(0), i, true), x.ltI(i, n, true)), mkEq(ri, mkApp("sat", x.byteSort(), s, mkAdd(a, i)))), []*Term{ri}))
	}
	return r
}

func (f *frame) sliceOp(v *ssa.Slice, st *State, pc *Term) {
	x := f.x
	var lo, hi, max *Term
	if v.Low != nil {
		lo = x.toIdx(f.term(v.Low, st), v.Low.Type())
	} else {
		lo = x.idxConst(0)
	}
	if v.High != nil {
		hi = x.toIdx(f.term(v.High, st), v.High.Type())
	}
	if v.Max != nil {
		max = x.toIdx(f.term(v.Max, st), v.Max.Type())
	}
	switch b := f.val(v.X, st).(type) {
	case SliceV:
		if hi == nil {
			hi = b.Len
		}
		c := b.Cap
		if max != nil {
			c = max
		}
		g := mkAnd(x.leI(x.idxConst(0), lo, true), x.leI(lo, hi, true), x.leI(hi, c, true))
		if max != nil {
			g = mkAnd(g, x.leI(max, b.Cap, true))
		}
		x.safety("slice", "slice bounds of "+describe(v.X), v.Pos(), pc, g)
		f.set(v, SliceV{b.Elem, b.Arr, mkAdd(b.Off, lo), mkSub(hi, lo), mkSub(c, lo)})
	case *Term: // string
		n := x.slen(b)
		if hi == nil {
			hi = n
		}
		x.safety("slice", "string slice bounds", v.Pos(), pc, mkAnd(x.leI(x.idxConst(0), lo, true), x.leI(lo, hi, true), x.leI(hi, n, true)))
		f.set(v, x.substr(b, lo, hi))
	case AddrV: // pointer to array
		arr := b.T.Underlying().(*types.Array)
		if b.IsElem || len(b.Path) > 0 {
			unsup("slice of an embedded array")
		}
		n := x.idxConst(arr.Len())
		if hi == nil {
			hi = n
		}
		x.safety("slice", "array slice bounds", v.Pos(), pc, mkAnd(x.leI(x.idxConst(0), lo, true), x.leI(lo, hi, true), x.leI(hi, n, true)))
		f.set(v, SliceV{arr.Elem(), b.Ref, lo, mkSub(hi, lo), mkSub(n, lo)})
	default:
		unsup("slice of %T", b)
	}
}

// ---- maps
func (x *Ctx) mapDom(st *State, m *types.Map) (string, string) {
	ks := x.leaves(m.Key())
	if len(ks) != 1 {
		unsup("map key type %s", m.Key())
	}
	return "M|" + typeKey(m) + "|dom", ks[0].sort
}
func (x *Ctx) mapUpdate(st *State, m *types.Map, ref *Term, key, val Val) {
	dk, ks := x.mapDom(st, m)
	k := x.toLeaves(key, m.Key())[0]
	d := x.getHeap(st, dk, arrSort(sInt, arrSort(ks, sBool)))
	dom := mkSelect(d, ref)
	lk := "M|" + typeKey(m) + "|len"
	lh := x.getHeap(st, lk, arrSort(sInt, x.idxSort()))
	l := mkSelect(lh, ref)
	st.heaps[lk] = mkStore(lh, ref, mkIte(mkSelect(dom, k), l, mkAdd(l, x.idxConst(1))))
	st.heaps[dk] = mkStore(d, ref, mkStore(dom, k, tTrue))
	ts := x.toLeaves(val, m.Elem())
	for i, lf := range x.leaves(m.Elem()) {
		vk := "M|" + typeKey(m) + "|val" + lf.path
		h := x.getHeap(st, vk, arrSort(sInt, arrSort(ks, lf.sort)))
		st.heaps[vk] = mkStore(h, ref, mkStore(mkSelect(h, ref), k, ts[i]))
	}
}
func (x *Ctx) mapHas(st *State, m *types.Map, ref *Term, key Val) *Term {
	dk, ks := x.mapDom(st, m)
	k := x.toLeaves(key, m.Key())[0]
	d := x.getHeap(st, dk, arrSort(sInt, arrSort(ks, sBool)))
	return mkAnd(mkNot(mkEq(ref, mkInt(0))), mkSelect(mkSelect(d, ref), k))
}
func (x *Ctx) mapLookup(st *State, m *types.Map, ref *Term, key Val) (Val, *Term) {
	_, ks := x.mapDom(st, m)
	k := x.toLeaves(key, m.Key())[0]
	ok := x.mapHas(st, m, ref, key)
	var ts []*Term
	for _, lf := range x.leaves(m.Elem()) {
		vk := "M|" + typeKey(m) + "|val" + lf.path
		h := x.getHeap(st, vk, arrSort(sInt, arrSort(ks, lf.sort)))
		ts = append(ts, mkSelect(mkSelect(h, ref), k))
	}
	stored := x.fromLeaves(m.Elem(), ts)
	x.typeFacts(stored, m.Elem(), st)
	return x.mergeVal(ok, stored, x.zero(m.Elem()), m.Elem()), ok
}
func (x *Ctx) mapLen(st *State, m *types.Map, ref *Term) *Term {
	lk := "M|" + typeKey(m) + "|len"
	lh := x.getHeap(st, lk, arrSort(sInt, x.idxSort()))
	l := mkSelect(lh, ref)
	r := mkIte(mkEq(ref, mkInt(0)), x.idxConst(0), l)
	if !l.hasB {
		x.fact(x.leI(x.idxConst(0), l, true))
		if !x.bv {
			x.fact(mkLe(l, mkBig(pow2(62))))
		}
	}
	return r
}

func (f *frame) next(v *ssa.Next, st *State, pc *Term) {
	x := f.x
	it := v.Iter.(*ssa.Range)
	tt := v.Type().(*types.Tuple)
	ok := fresh("next_ok", sBool)
	if v.IsString {
		s := f.term(it.X, st)
		i := fresh("ri", x.idxSort())
		r := fresh("rune", x.scalarSort(tt.At(2).Type()))
		x.fact(mkImp(ok, mkAnd(x.leI(x.idxConst(0), i, true), x.ltI(i, x.slen(s), true))))
		x.typeFacts(r, types.Typ[types.Int32], st)
		f.set(v, TupleV{ok, i, r})
		return
	}
	m := it.X.Type().Underlying().(*types.Map)
	ref := f.term(it.X, st)
	if mi, isIter := f.val(it, st).(MapIterV); isIter && mi.seq != nil {
		dk, ks := x.mapDom(st, m)
		dom := mkSelect(x.getHeap(st, dk, arrSort(sInt, arrSort(ks, sBool))), ref)
		if dom == mi.dom {
			// the map has not changed since the loop began: each key once
			h := x.getHeap(st, mi.key, arrSort(sInt, sInt))
			c := mkSelect(h, mkInt(0))
			x.fact(mkLe(mkInt(0), c))
			x.fact(mkLe(c, mi.n))
			ok := mkLt(c, mi.n)
			kt := mkSelect(mi.seq, c)
			kv := x.fromLeaves(m.Key(), []*Term{kt})
			val, has := x.mapLookup(st, m, ref, kv)
			x.fact(mkImp(mkAnd(pc, ok), has))
			st.heaps[mi.key] = mkStore(h, mkInt(0), mkIte(ok, mkAdd(c, mkInt(1)), c))
			f.set(v, TupleV{ok, kv, val})
			return
		}
	}
	k := x.freshVal("mk", m.Key(), st)
	val, has := x.mapLookup(st, m, ref, k)
	x.fact(mkImp(mkAnd(pc, ok), has))
	f.set(v, TupleV{ok, k, val})
}

// MapIterV is an iteration over an unchanging map: seq lists its n keys, each once.
type MapIterV struct {
	seq, pos, dom, n *Term
	key              string
	mt               *types.Map
}

func (f *frame) newMapIter(v *ssa.Range, mt *types.Map, st *State) Val {
	x := f.x
	if x.bv {
		return MapIterV{}
	}
	ref := f.term(v.X, st)
	dk, ks := x.mapDom(st, mt)
	dom := mkSelect(x.getHeap(st, dk, arrSort(sInt, arrSort(ks, sBool))), ref)
	n := x.mapLen(st, mt, ref)
	x.iterID++
	key := fmt.Sprintf("R|%s.%s.%d", f.fn.Name(), v.Name(), f.depth())
	seq := fresh("mapseq", arrSort(sInt, ks))
	pos := fresh("mappos", arrSort(ks, sInt))
	i, k := freshBound("mi", sInt), freshBound("mk", ks)
	at := mkSelect(seq, i)
	x.fact(mkForall([]*Term{i}, mkImp(mkAnd(mkLe(mkInt(0), i), mkLt(i, n)), mkAnd(mkSelect(dom, at), mkEq(mkSelect(pos, at), i))), []*Term{at}))
	pk := mkSelect(pos, k)
	body := mkImp(mkAnd(mkNot(mkEq(ref, mkInt(0))), mkSelect(dom, k)), mkAnd(mkLe(mkInt(0), pk), mkLt(pk, n), mkEq(mkSelect(seq, pk), k)))
	x.fact(mkForall([]*Term{k}, body, []*Term{pk}))
	if dt := mkSelect(dom, k); dt.op == "select" {
		x.fact(mkForall([]*Term{k}, body, []*Term{dt}))
	}
	h := x.getHeap(st, key, arrSort(sInt, sInt))
	st.heaps[key] = mkStore(h, mkInt(0), mkInt(0))
	return MapIterV{seq, pos, dom, n, key, mt}
}

// depth tells frames of the same function apart.
func (f *frame) depth() int {
	if f.frameID == 0 {
		f.x.frameSeq++
		f.frameID = f.x.frameSeq
	}
	return f.frameID
}

// ---- conversions
func (f *frame) convert(v *ssa.Convert, st *State, pc *Term) *Term {
	x := f.x
	src, dst := v.X.Type(), v.Type()
	val := f.val(v.X, st)
	ws, ss, oks := intInfo(src)
	wd, _, okd := intInfo(dst)
	if oks && okd {
		t := val.(*Term)
		if x.bv {
			f.set(v, x.bvResize(t, ws, wd, ss))
			return pc
		}
		lo1, hi1, _ := intRange(src)
		lo2, hi2, _ := intRange(dst)
		if lo2.Cmp(lo1) <= 0 && hi1.Cmp(hi2) <= 0 {
			f.set(v, t)
		} else {
			f.set(v, x.wrap(t, dst))
		}
		return pc
	}
	sb, sIsB := src.Underlying().(*types.Basic)
	db, dIsB := dst.Underlying().(*types.Basic)
	switch {
	case sIsB && sb.Info()&types.IsString != 0 && dIsB && db.Info()&types.IsString != 0:
		f.set(v, val)
	case dIsB && db.Info()&types.IsString != 0 && !sIsB:
		sl, ok := val.(SliceV)
		if !ok {
			unsup("convert to string from %T", val)
		}
		if w, _, _ := intInfo(sl.Elem); w != 8 {
			f.set(v, fresh("runestr", sStr))
			return pc
		}
		f.set(v, x.bytesToString(sl, st))
	case sIsB && sb.Info()&types.IsString != 0 && !dIsB:
		e := dst.Underlying().(*types.Slice).Elem()
		if w, _, _ := intInfo(e); w != 8 {
			unsup("[]rune conversion")
		}
		s := val.(*Term)
		f.set(v, x.stringToBytes(s, e, st))
	case oks && dIsB && db.Info()&types.IsString != 0:
		t := val.(*Term)
		r := mkApp("runestring", sStr, t)
		f.set(v, r)
	case dIsB && (db.Info()&types.IsFloat != 0 || okd):
		t, ok := val.(*Term)
		if !ok {
			unsup("convert %T", val)
		}
		ds := x.scalarSort(dst)
		if t.sort == ds {
			f.set(v, t)
			return pc
		}
		r := mkApp("conv_"+sanitize(t.sort)+"_"+sanitize(typeKey(dst)), ds, t)
		f.set(v, r)
		x.typeFacts(r, dst, st)
	default:
		// pointer / unsafe conversions
		unsup("conversion %s -> %s", src, dst)
	}
	return pc
}

func (x *Ctx) elemArr(st *State, e types.Type, arr *Term) *Term {
	l := x.leaves(e)
	if len(l) != 1 {
		unsup("elemArr of composite %s", e)
	}
	h := x.getHeap(st, elemKey(e, l[0].path), arrSort(sInt, arrSort(x.idxSort(), l[0].sort)))
	return mkSelect(h, arr)
}
func (x *Ctx) setElemArr(st *State, e types.Type, arr, val *Term) {
	l := x.leaves(e)
	k := elemKey(e, l[0].path)
	h := x.getHeap(st, k, arrSort(sInt, arrSort(x.idxSort(), l[0].sort)))
	st.heaps[k] = mkStore(h, arr, val)
}

func (x *Ctx) bytesToString(sl SliceV, st *State) *Term {
	a := x.elemArr(st, sl.Elem, sl.Arr)
	r := mkApp("mkstr", sStr, a, sl.Off, sl.Len)
	if !r.hasB {
		x.fact(mkEq(x.slen(r), sl.Len))
		i := freshBound("i", x.idxSort())
		ri := mkApp("sat", x.byteSort(), r, i)
		x.fact(mkForall([]*Term{i}, mkImp(mkAnd(x.leI(x.idxConst(0), i, true), x.ltI(i, sl.Len, true)), mkEq(ri, mkSelect(a, mkAdd(sl.Off, i)))), []*Term{ri}))
		if isConst(sl.Len) && sl.Len.num.IsInt64() && sl.Len.num.Int64() <= 16 {
			for k := int64(0); k < sl.Len.num.Int64(); k++ {
				x.fact(mkEq(x.sat(r, x.idxConst(k)), mkSelect(a, mkAdd(sl.Off, x.idxConst(k)))))
			}
		}
	}
	return r
}
func (x *Ctx) stringToBytes(s *Term, e types.Type, st *State) SliceV {
	r := x.newRef(st)
	n := x.slen(s)
	a := fresh("strbytes", arrSort(x.idxSort(), x.byteSort()))
	i := freshBound("i", x.idxSort())
	ai := mkSelect(a, i)
	x.fact(mkForall([]*Term{i}, mkImp(mkAnd(x.leI(x.idxConst(0), i, true), x.ltI(i, n, true)), mkEq(ai, mkApp("sat", x.byteSort(), s, i))), []*Term{ai}))
	for lit, t := range x.strs {
		if t == s && len(lit) <= 16 {
			for k := range lit {
				x.fact(mkEq(mkSelect(a, x.idxConst(int64(k))), x.byteConst(int64(lit[k]))))
			}
		}
	}
	x.setElemArr(st, e, r, a)
	return SliceV{e, r, x.idxConst(0), n, n}
}

func (f *frame) typeAssert(v *ssa.TypeAssert, st *State, pc *Term) *Term {
	x := f.x
	iv, ok := f.val(v.X, st).(IfaceV)
	if !ok {
		unsup("type assertion on %T", f.val(v.X, st))
	}
	var okT *Term
	var res Val
	if types.IsInterface(v.AssertedType) {
		if iv.Known != nil {
			okT = mkBool(types.Implements(iv.Known, v.AssertedType.Underlying().(*types.Interface)))
		} else {
			okT = mkApp("implements_"+typeKey(v.AssertedType), sBool, typOf(iv.T))
			okT = mkAnd(okT, mkNot(mkEq(iv.T, nilAny)))
			if types.AssignableTo(v.X.Type(), v.AssertedType) {
				okT = mkNot(mkEq(iv.T, nilAny))
			}
		}
		res = iv
	} else {
		if iv.Known != nil {
			okT = mkBool(types.Identical(types.Unalias(iv.Known), types.Unalias(v.AssertedType)))
			if okT == tTrue {
				res = iv.V
			} else {
				res = x.zero(v.AssertedType)
			}
		} else {
			okT = mkEq(typOf(iv.T), x.tag(v.AssertedType))
			res = x.unbox(iv, v.AssertedType, st)
		}
	}
	if v.CommaOk {
		z := x.zero(v.AssertedType)
		f.set(v, TupleV{x.mergeVal(okT, res, z, v.AssertedType), okT})
		return pc
	}
	x.safety("typeassert", fmt.Sprintf("%s holds a %s", describe(v.X), v.AssertedType), v.Pos(), pc, okT)
	f.set(v, res)
	return pc
}
