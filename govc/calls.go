package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (f *frame) call(c *ssa.CallCommon, instr ssa.Value, st *State, pc *Term, pos token.Pos) (Val, *Term) {
	var fn, recv Val
	if c.IsInvoke() {
		recv = f.val(c.Value, st)
	} else if _, ok := c.Value.(*ssa.Builtin); !ok {
		fn = f.val(c.Value, st)
	}
	var args []Val
	for _, a := range c.Args {
		args = append(args, f.val(a, st))
	}
	return f.callWith(c, instr, fn, recv, args, st, pc, pos)
}

func (f *frame) callWith(c *ssa.CallCommon, instr ssa.Value, fn, recv Val, args []Val, st *State, pc *Term, pos token.Pos) (Val, *Term) {
	x := f.x
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return f.builtin(b, c, args, st, pc, pos)
	}
	sig := c.Signature()
	if c.IsInvoke() {
		iv, ok := recv.(IfaceV)
		if !ok {
			unsup("invoke on %T", recv)
		}
		if iv.Known != nil {
			m := x.w.prog.LookupMethod(iv.Known, c.Method.Pkg(), c.Method.Name())
			if m != nil {
				return f.callFn(m, nil, append([]Val{iv.V}, args...), st, pc, pos)
			}
		}
		x.safety("nil", "interface "+describe(c.Value)+" is not nil", pos, pc, mkNot(x.isNilIface(iv)))
		key := "(" + typeKeyFull(c.Value.Type()) + ")." + c.Method.Name()
		if con := x.w.specs.Contracts[key]; con != nil {
			return f.applyContract(con, nil, sig, append([]Val{iv}, args...), st, pc, pos, c.Value.Type())
		}
		if m := models[key]; m != nil {
			return m(f, &callCtx{args: append([]Val{iv}, args...), st: st, pc: pc, pos: pos, sig: sig, name: key})
		}
		// any interface with that method name (io.Reader.Read on io.ReadSeeker, ...)
		if con := x.w.specs.Contracts["(*)."+c.Method.Name()]; con != nil {
			return f.applyContract(con, nil, sig, append([]Val{iv}, args...), st, pc, pos, c.Value.Type())
		}
		return f.unknownCall(key, sig, append([]Val{iv}, args...), st, pc)
	}
	fv, ok := fn.(FuncV)
	if !ok {
		unsup("call of %T", fn)
	}
	if fv.Fn == nil && fv.T != nil {
		if g, ok := x.funcOf[fv.T]; ok {
			fv = g
		}
	}
	if fv.Fn == nil {
		if fv.T != nil && fv.T.op == "ite" {
			// call through a merged function value: split
			a := fv.T.args
			st1, st2 := st.clone(), st.clone()
			r1, p1 := f.callWith(c, instr, FuncV{T: a[1]}, recv, args, st1, mkAnd(pc, a[0]), pos)
			r2, p2 := f.callWith(c, instr, FuncV{T: a[2]}, recv, args, st2, mkAnd(pc, mkNot(a[0])), pos)
			if p1 == tFalse {
				*st = *st2
				return r2, p2
			}
			if p2 == tFalse {
				*st = *st1
				return r1, p1
			}
			m := x.mergeStates([]*Term{p1, p2}, []*State{st1, st2})
			*st = *m
			return x.mergeVal(p1, r1, r2, nil), mkOr(p1, p2)
		}
		key := "funcvalue " + typeKey(sig)
		if con := x.w.specs.Contracts["funcvalue."+describe(c.Value)]; con != nil {
			return f.applyContract(con, nil, sig, args, st, pc, pos, nil)
		}
		return f.unknownCall(key, sig, args, st, pc)
	}
	return f.callFn(fv.Fn, fv.Bind, args, st, pc, pos)
}

func typeKeyFull(t types.Type) string {
	s := types.TypeString(types.Unalias(t), func(p *types.Package) string { return p.Path() })
	return reRune.ReplaceAllString(reByte.ReplaceAllString(s, "uint8"), "int32")
}

func (f *frame) callFn(fn *ssa.Function, bind []Val, args []Val, st *State, pc *Term, pos token.Pos) (Val, *Term) {
	x := f.x
	name := fn.String()
	// method wrappers, bound methods, thunks: look through
	if m := models[name]; m == nil && fn.Origin() != nil && models[fn.Origin().String()] != nil {
		name = fn.Origin().String()
	}
	if m := models[name]; m != nil {
		x.called["model: "+name] = true
		return m(f, &callCtx{args: args, st: st, pc: pc, pos: pos, sig: fn.Signature, name: name, fn: fn})
	}
	con := x.w.specs.Contracts[name]
	if con != nil && !con.Inline && !(x.con != nil && x.con.InlineIn[fn.Name()]) {
		return f.applyContract(con, fn, fn.Signature, args, st, pc, pos, nil)
	}
	if strings.Contains(name, "/internal.Logger)") {
		x.assumeNote("logging has no effect on results: " + shortName(name))
		if strings.HasSuffix(name, ").Fatal") || strings.HasSuffix(name, ").Fatalf") {
			return nil, tFalse
		}
		return x.resultFresh(fn.Signature, st), pc
	}
	if fn.Blocks == nil || !x.w.inRepo(fn) && !stdInline(name) {
		if fn.Synthetic != "" && fn.Blocks != nil {
			// wrapper or bound method
		} else {
			return f.unknownCall(name, fn.Signature, args, st, pc)
		}
	}
	for _, s := range x.stack {
		if s == fn {
			unsup("recursive call of %s without a contract", fn.Name())
		}
	}
	if len(x.stack) > 25 {
		unsup("inlining too deep at %s", fn.Name())
	}
	if fn != x.fn && fn.Synthetic == "" {
		x.inlined[shortName(name)] = true
	}
	return f.inline(fn, bind, args, st, pc, pos)
}

func (f *frame) inline(fn *ssa.Function, bind, args []Val, st *State, pc *Term, pos token.Pos) (Val, *Term) {
	x := f.x
	x.stack = append(x.stack, fn)
	defer func() { x.stack = x.stack[:len(x.stack)-1] }()
	g := newFrame(x, fn)
	for i, p := range fn.Params {
		g.env[p] = args[i]
		g.params[p.Name()] = args[i]
	}
	for i, fv := range fn.FreeVars {
		g.env[fv] = bind[i]
	}
	g.old = st.clone()
	g.run(st.clone(), pc)
	g.finishThrows()
	for _, t := range g.throws {
		f.throws = append(f.throws, t)
	}
	return f.joinReturns(g, st)
}

// finishThrows turns thrown errors into returns when the function recovers them.
func (f *frame) finishThrows() {
	if !f.recovers || len(f.throws) == 0 {
		return
	}
	x := f.x
	var left []exit
	for _, t := range f.throws {
		// find the guard under which RecoverError was deferred
		g := tFalse
		var rec *deferred
		for i := range f.defers {
			d := &f.defers[i]
			if fv, ok := d.fn.(FuncV); ok && fv.Fn != nil && strings.HasSuffix(fv.Fn.String(), "go-thrower.RecoverError") {
				g = mkOr(g, d.pc)
				rec = d
			}
		}
		if rec == nil {
			left = append(left, t)
			continue
		}
		pc := t.pc
		if x.dry == 0 && g != t.pc {
			// the deferred recovery must be registered on this path
			pc = mkAnd(t.pc, g)
			un := mkAnd(t.pc, mkNot(g))
			if un != tFalse && !impliesSyn(t.pc, g) {
				left = append(left, exit{pc: un, st: t.st, err: t.err})
			}
		}
		st := t.st.clone()
		// run the other defers
		save := f.defers
		pc = f.runDefers(st, pc)
		f.defers = save
		// store the error
		if len(rec.args) == 1 {
			if a, ok := rec.args[0].(AddrV); ok && !(isConst(a.Ref) && a.Ref.num.Sign() == 0) {
				x.store(st, a, t.err)
			}
		}
		e := exit{pc: pc, st: st}
		if f.fn.Recover != nil {
			for _, in := range f.fn.Recover.Instrs {
				switch v := in.(type) {
				case *ssa.UnOp:
					f.set(v, x.load(st, f.val(v.X, st).(AddrV)))
				case *ssa.Return:
					for _, r := range v.Results {
						e.vals = append(e.vals, f.val(r, st))
					}
				}
			}
		}
		if len(e.vals) == 0 {
			for i := 0; i < f.fn.Signature.Results().Len(); i++ {
				e.vals = append(e.vals, x.zero(f.fn.Signature.Results().At(i).Type()))
			}
		}
		f.returns = append(f.returns, e)
	}
	f.throws = left
}

// impliesSyn: does conjunction a syntactically contain b's conjuncts?
func impliesSyn(a, b *Term) bool {
	if b == tTrue {
		return true
	}
	in := map[*Term]bool{}
	for _, c := range conj(a) {
		in[c] = true
	}
	for _, c := range conj(b) {
		if !in[c] {
			return false
		}
	}
	return true
}

func (f *frame) joinReturns(g *frame, st *State) (Val, *Term) {
	x := f.x
	if len(g.returns) == 0 {
		return nil, tFalse
	}
	var cs []*Term
	var ss []*State
	for _, r := range g.returns {
		cs = append(cs, r.pc)
		ss = append(ss, r.st)
	}
	m := x.mergeStates(cs, ss)
	*st = *m
	n := g.fn.Signature.Results().Len()
	var out TupleV
	for i := 0; i < n; i++ {
		v := g.returns[len(g.returns)-1].vals[i]
		for k := len(g.returns) - 2; k >= 0; k-- {
			v = x.mergeVal(cs[k], g.returns[k].vals[i], v, g.fn.Signature.Results().At(i).Type())
		}
		out = append(out, v)
	}
	pc := mkOr(cs...)
	switch n {
	case 0:
		return nil, pc
	case 1:
		return out[0], pc
	}
	return out, pc
}

func (x *Ctx) resultFresh(sig *types.Signature, st *State) Val {
	rs := sig.Results()
	switch rs.Len() {
	case 0:
		return nil
	case 1:
		return x.freshVal("r", rs.At(0).Type(), st)
	}
	return x.freshVal("r", rs, st)
}

// unknownCall: a function without contract or body. Everything reachable from
// its pointer/slice/map arguments one level deep is forgotten.
func (f *frame) unknownCall(name string, sig *types.Signature, args []Val, st *State, pc *Term) (Val, *Term) {
	x := f.x
	x.assumeNote("external function without contract, assumed to return normally and to change only what its arguments point to directly: " + shortName(name))
	for _, a := range args {
		x.havocArg(a, st)
	}
	na := fresh("alloc", sInt)
	allocAbove[na] = st.alloc
	x.fact(mkLe(st.alloc, na))
	st.alloc = na
	return x.resultFresh(sig, st), pc
}

func (x *Ctx) havocArg(a Val, st *State) {
	switch v := a.(type) {
	case SliceV:
		for _, l := range x.leaves(v.Elem) {
			k := elemKey(v.Elem, l.path)
			s := arrSort(x.idxSort(), l.sort)
			h := x.getHeap(st, k, arrSort(sInt, s))
			st.heaps[k] = mkStore(h, v.Arr, fresh("hv", s))
		}
	case AddrV:
		if v.IsElem || len(v.Path) > 0 {
			x.store(st, v, x.freshVal("hv", v.T, st))
			return
		}
		if _, ok := v.T.Underlying().(*types.Struct); ok {
			// struct objects of external packages are opaque; of ours: fields forgotten
			if n, ok := types.Unalias(v.T).(*types.Named); ok && n.Obj().Pkg() != nil && !strings.HasPrefix(n.Obj().Pkg().Path(), modPath) {
				return
			}
		}
		func() {
			defer func() {
				if r := recover(); r != nil {
					if _, ok := r.(unsupported); !ok {
						panic(r)
					}
				}
			}()
			x.store(st, v, x.freshVal("hv", v.T, st))
		}()
	case IfaceV:
		if v.Known != nil {
			x.havocArg(v.V, st)
		}
	}
}

func shortName(n string) string { return strings.ReplaceAll(n, modPath+"/", "") }

// ---- Go builtins

func (f *frame) builtin(b *ssa.Builtin, c *ssa.CallCommon, args []Val, st *State, pc *Term, pos token.Pos) (Val, *Term) {
	x := f.x
	switch b.Name() {
	case "len", "cap":
		switch v := args[0].(type) {
		case SliceV:
			if b.Name() == "len" {
				return v.Len, pc
			}
			return v.Cap, pc
		case *Term:
			if v.sort == sStr {
				return x.slen(v), pc
			}
			if m, ok := c.Args[0].Type().Underlying().(*types.Map); ok {
				return x.mapLen(st, m, v), pc
			}
		case ArrayV:
			return x.idxConst(v.T.Len()), pc
		case AddrV:
			if a, ok := v.T.Underlying().(*types.Array); ok {
				return x.idxConst(a.Len()), pc
			}
		}
		unsup("%s of %T", b.Name(), args[0])
	case "append":
		return x.appendOp(args[0], args[1], st, pc), pc
	case "copy":
		return x.copyOp(args[0], args[1], st, pc), pc
	case "min", "max":
		r := args[0].(*Term)
		_, signed, _ := intInfo(c.Args[0].Type())
		for _, a := range args[1:] {
			t := a.(*Term)
			if b.Name() == "min" {
				r = mkIte(x.leI(r, t, signed), r, t)
			} else {
				r = mkIte(x.leI(t, r, signed), r, t)
			}
		}
		return r, pc
	case "delete":
		m := c.Args[0].Type().Underlying().(*types.Map)
		ref := args[0].(*Term)
		dk, ks := x.mapDom(st, m)
		k := x.toLeaves(args[1], m.Key())[0]
		d := x.getHeap(st, dk, arrSort(sInt, arrSort(ks, sBool)))
		dom := mkSelect(d, ref)
		lk := "M|" + typeKey(m) + "|len"
		lh := x.getHeap(st, lk, arrSort(sInt, x.idxSort()))
		l := mkSelect(lh, ref)
		st.heaps[lk] = mkStore(lh, ref, mkIte(mkSelect(dom, k), mkSub(l, x.idxConst(1)), l))
		st.heaps[dk] = mkStore(d, ref, mkStore(dom, k, tFalse))
		return nil, pc
	case "panic":
		x.safety("panic", "explicit panic is unreachable", pos, pc, tFalse)
		return nil, tFalse
	case "print", "println":
		return nil, pc
	case "ssa:wrapnilchk":
		return args[0], pc
	case "ssa:deferstack":
		return mkInt(0), pc
	case "clear":
		unsup("clear")
	}
	unsup("builtin %s", b.Name())
	return nil, pc
}

func (x *Ctx) sliceLike(v Val, st *State) (n *Term, at func(leafIdx int, i *Term) *Term) {
	switch s := v.(type) {
	case SliceV:
		ls := x.leaves(s.Elem)
		var arrs []*Term
		for _, l := range ls {
			h := x.getHeap(st, elemKey(s.Elem, l.path), arrSort(sInt, arrSort(x.idxSort(), l.sort)))
			arrs = append(arrs, mkSelect(h, s.Arr))
		}
		return s.Len, func(k int, i *Term) *Term { return mkSelect(arrs[k], mkAdd(s.Off, i)) }
	case *Term:
		if s.sort == sStr {
			return x.slen(s), func(k int, i *Term) *Term { return mkApp("sat", x.byteSort(), s, i) }
		}
	}
	unsup("slice-like %T", v)
	return nil, nil
}

func smallConst(t *Term, max int64) (int64, bool) {
	if isConst(t) && t.num.IsInt64() && t.num.Int64() >= 0 && t.num.Int64() <= max {
		return t.num.Int64(), true
	}
	return 0, false
}

func (x *Ctx) appendOp(dst, src Val, st *State, pc *Term) Val {
	d, ok := dst.(SliceV)
	if !ok {
		unsup("append to %T", dst)
	}
	if t, ok := src.(*Term); ok && t.sort == sInt { // append(s, nil...)
		return d
	}
	n, at := x.sliceLike(src, st)
	if k, ok := smallConst(n, 0); ok && k == 0 {
		return d
	}
	newLen := mkAdd(d.Len, n)
	if !x.bv {
		// memory is finite
		x.fact(mkImp(pc, mkLe(newLen, mkBig(pow2(62)))))
	}
	inPlace := x.leI(newLen, d.Cap, true)
	fr := x.newRef(st)
	var arr, off, cp *Term
	ncap := fresh("newcap", x.idxSort())
	x.fact(x.leI(newLen, ncap, true))
	if !x.bv {
		x.fact(mkImp(pc, mkLe(ncap, mkBig(pow2(62)))))
	}
	arr = mkIte(inPlace, d.Arr, fr)
	off = mkIte(inPlace, d.Off, x.idxConst(0))
	cp = mkIte(inPlace, d.Cap, ncap)
	for li, l := range x.leaves(d.Elem) {
		key := elemKey(d.Elem, l.path)
		as := arrSort(x.idxSort(), l.sort)
		h := x.getHeap(st, key, arrSort(sInt, as))
		old := mkSelect(h, d.Arr)
		// in place
		inp := old
		c, small := smallConst(n, 4)
		if small {
			for k := int64(0); k < c; k++ {
				inp = mkStore(inp, mkAdd(mkAdd(d.Off, d.Len), x.idxConst(k)), at(li, x.idxConst(k)))
			}
		} else {
			a := fresh("app", as)
			i := freshBound("i", x.idxSort())
			ai := mkSelect(a, i)
			rel := mkSub(i, mkAdd(d.Off, d.Len))
			x.fact(mkForall([]*Term{i}, mkEq(ai, mkIte(mkAnd(x.leI(x.idxConst(0), rel, true), x.ltI(rel, n, true)), at(li, rel), mkSelect(old, i))), []*Term{ai}))
			inp = a
		}
		// reallocated
		b := fresh("app", as)
		i := freshBound("i", x.idxSort())
		bi := mkSelect(b, i)
		x.fact(mkForall([]*Term{i}, mkImp(mkAnd(x.leI(x.idxConst(0), i, true), x.ltI(i, d.Len, true)), mkEq(bi, mkSelect(old, mkAdd(d.Off, i)))), []*Term{bi}))
		var fn *Term = b
		if small {
			for k := int64(0); k < c; k++ {
				fn = mkStore(fn, mkAdd(d.Len, x.idxConst(k)), at(li, x.idxConst(k)))
			}
		} else {
			j := freshBound("i", x.idxSort())
			bj := mkSelect(b, j)
			rel := mkSub(j, d.Len)
			x.fact(mkForall([]*Term{j}, mkImp(mkAnd(x.leI(d.Len, j, true), x.ltI(j, newLen, true)), mkEq(bj, at(li, rel))), []*Term{bj}))
		}
		if inPlace == tFalse {
			st.heaps[key] = mkStore(h, fr, fn)
		} else {
			h1 := mkStore(h, d.Arr, mkIte(inPlace, inp, old))
			st.heaps[key] = mkStore(h1, fr, fn)
		}
	}
	return SliceV{d.Elem, arr, off, newLen, cp}
}

func (x *Ctx) copyOp(dst, src Val, st *State, pc *Term) Val {
	d := dst.(SliceV)
	sn, at := x.sliceLike(src, st)
	n := mkIte(x.leI(d.Len, sn, true), d.Len, sn)
	for li, l := range x.leaves(d.Elem) {
		key := elemKey(d.Elem, l.path)
		as := arrSort(x.idxSort(), l.sort)
		h := x.getHeap(st, key, arrSort(sInt, as))
		old := mkSelect(h, d.Arr)
		if c, ok := smallConst(n, 8); ok {
			// overlapping copies read the source first
			var vs []*Term
			for k := int64(0); k < c; k++ {
				vs = append(vs, at(li, x.idxConst(k)))
			}
			a := old
			for k := int64(0); k < c; k++ {
				a = mkStore(a, mkAdd(d.Off, x.idxConst(k)), vs[k])
			}
			st.heaps[key] = mkStore(h, d.Arr, a)
			continue
		}
		a := fresh("cpy", as)
		i := freshBound("i", x.idxSort())
		ai := mkSelect(a, i)
		rel := mkSub(i, d.Off)
		x.fact(mkForall([]*Term{i}, mkEq(ai, mkIte(mkAnd(x.leI(x.idxConst(0), rel, true), x.ltI(rel, n, true)), at(li, rel), mkSelect(old, i))), []*Term{ai}))
		x.forwardCopy(src, at, li, n, func(k *Term) *Term { return mkSelect(a, mkAdd(d.Off, k)) })
		st.heaps[key] = mkStore(h, d.Arr, a)
	}
	return n
}

// forwardCopy: elements 0..n of the source slice are found at dst(k); usable from
// a read of the source.
func (x *Ctx) forwardCopy(src Val, at func(int, *Term) *Term, li int, n *Term, dst func(k *Term) *Term) {
	s, ok := src.(SliceV)
	if !ok || x.bv {
		return
	}
	i := freshBound("i", x.idxSort())
	rel := mkSub(i, s.Off)
	si := at(li, rel)
	if si.op != "select" || si.args[1] != i {
		return
	}
	x.fact(mkForall([]*Term{i}, mkImp(mkAnd(mkLe(mkInt(0), rel), mkLt(rel, n)), mkEq(si, dst(rel))), []*Term{si}))
}

// ---- contracts at call sites

type loc struct {
	key  string
	sort string // sort of the whole heap
	ref  *Term  // nil: the whole heap
	addr *AddrV // interior location
	path string
	lsrt string
}

func (f *frame) applyContract(con *Contract, fn *ssa.Function, sig *types.Signature, args []Val, st *State, pc *Term, pos token.Pos, recvT types.Type) (Val, *Term) {
	x := f.x
	if con.Trusted {
		note := ""
		if con.Note != "" {
			note = " (" + con.Note + ")"
		}
		x.called["trusted: "+shortName(con.Key)+note] = true
	} else {
		x.called["contract: "+shortName(con.Key)] = true
	}
	env := x.contractEnv(con, fn, sig, args, st, st, recvT)
	if fn != nil && fn.Signature.Recv() != nil && !con.Nilrecv {
		if a, ok := args[0].(AddrV); ok && !a.IsElem && len(a.Path) == 0 && !x.knownNonNil(a.Ref) {
			x.safety("nil", "receiver of "+con.FuncName+" is not nil", pos, pc, mkNot(mkEq(a.Ref, mkInt(0))))
		}
	}
	cross := con.Mode == "bv" && !x.bv
	if cross {
		x.assumeNote("machine-integer contract of " + shortName(con.Key) + " used by a caller in mathematical integers through its view")
	}
	for _, c := range con.Requires {
		if cross && strings.Contains(c.Text, "off(") {
			continue // a limit of the machine-integer memory model
		}
		g := x.evalClause(c, env)
		x.obligeClause("requires", con.FuncName+": "+c.Text, c.Line, pos, pc, g)
	}
	pre := st.clone()
	if con.ModAll {
		for k := range st.heaps {
			st.heaps[k] = fresh("call_"+sanitizeKey(k), x.heapSort[k])
		}
	} else {
		for _, m := range con.Modifies {
			for _, l := range x.evalModifies(m, env) {
				x.havocLoc(l, st)
			}
		}
	}
	if !con.Pure {
		na := fresh("alloc", sInt)
		allocAbove[na] = pre.alloc
		x.fact(mkLe(pre.alloc, na))
		st.alloc = na
	}
	npc := pc
	if con.Throws {
		var threw *Term
		if len(con.ThrowsIf) > 0 {
			var cs []*Term
			for _, c := range con.ThrowsIf {
				cs = append(cs, x.evalClause(c, x.contractEnv(con, fn, sig, args, pre, pre, recvT)))
			}
			threw = mkOr(cs...)
		} else {
			threw = fresh("threw", sBool)
		}
		if threw != tFalse {
			ex := exit{pc: mkAnd(pc, threw), st: st.clone()}
			errT := fresh("thrown", sAny)
			x.fact(mkNot(raw("=", sBool, errT, nilAny)))
			x.fact(mkLt(mkInt(0), typOf(errT)))
			ex.err = IfaceV{T: errT}
			e2 := x.contractEnv(con, fn, sig, args, ex.st, pre, recvT)
			for _, c := range con.OnThrow {
				x.fact(mkImp(ex.pc, x.evalClause(c, e2)))
			}
			f.throws = append(f.throws, ex)
		}
		npc = mkAnd(pc, mkNot(threw))
		if npc == tFalse {
			return nil, tFalse
		}
	}
	res := x.resultFresh(sig, st)
	env2 := x.contractEnv(con, fn, sig, args, st, pre, recvT)
	x.bindResults(env2, fn, sig, res)
	ens := con.Ensures
	if cross {
		ens = con.View
	}
	for _, c := range ens {
		x.assumeClause(c, env2, npc)
	}
	return res, npc
}

func (x *Ctx) assumeClause(c Clause, env *specEnv, pc *Term) {
	env.assuming = true
	t := x.evalClause(c, env)
	env.assuming = false
	x.fact(mkImp(pc, t))
}

func (x *Ctx) havocLoc(l loc, st *State) {
	h := x.getHeap(st, l.key, l.sort)
	if l.addr != nil {
		x.storeLeaf(st, *l.addr, l.path, l.lsrt, fresh("mod", l.lsrt))
		return
	}
	if l.ref == nil {
		st.heaps[l.key] = fresh("mod_"+sanitizeKey(l.key), l.sort)
		return
	}
	st.heaps[l.key] = mkStore(h, l.ref, fresh("mod", arrElemSort(l.sort)))
}

func (x *Ctx) contractEnv(con *Contract, fn *ssa.Function, sig *types.Signature, args []Val, st, old *State, recvT types.Type) *specEnv {
	env := &specEnv{x: x, st: st, old: old, vars: map[string]TV{}, con: con}
	i := 0
	ps := sig.Params()
	hasRecv := sig.Recv() != nil && len(args) == ps.Len()+1
	if recvT != nil && len(args) == ps.Len()+1 {
		hasRecv = true
	}
	if hasRecv {
		t := recvT
		if t == nil {
			t = sig.Recv().Type()
		}
		nm := con.Recv
		if nm == "" {
			nm = "self"
		}
		env.vars[nm] = TV{args[0], t}
		i = 1
	}
	for k := 0; k < ps.Len(); k++ {
		nm := ps.At(k).Name()
		if k < len(con.Params) {
			nm = con.Params[k]
		}
		env.vars[nm] = TV{args[i+k], ps.At(k).Type()}
		env.vars["arg_"+nm] = env.vars[nm]
	}
	if fn != nil && fn.Pkg != nil {
		env.pkg = fn.Pkg.Pkg
	} else if fn != nil && fn.Parent() != nil && fn.Parent().Pkg != nil {
		env.pkg = fn.Parent().Pkg.Pkg
	} else if con.Pkg != "" {
		if p := x.w.pkgs[modPath+"/"+con.Pkg]; p != nil {
			env.pkg = p.Pkg
		}
	}
	return env
}

func (x *Ctx) bindResults(env *specEnv, fn *ssa.Function, sig *types.Signature, res Val) {
	rs := sig.Results()
	switch rs.Len() {
	case 0:
	case 1:
		env.vars["result"] = TV{res, rs.At(0).Type()}
		if n := rs.At(0).Name(); n != "" && n != "_" {
			if _, clash := env.vars[n]; !clash {
				env.vars[n] = TV{res, rs.At(0).Type()}
			}
		}
	default:
		tv := res.(TupleV)
		for i := 0; i < rs.Len(); i++ {
			env.vars[fmt.Sprintf("result%d", i)] = TV{tv[i], rs.At(i).Type()}
			if n := rs.At(i).Name(); n != "" && n != "_" {
				if _, clash := env.vars[n]; !clash {
					env.vars[n] = TV{tv[i], rs.At(i).Type()}
				}
			}
		}
	}
}

var _ = big.NewInt

// stdInline: small standard library functions whose source is executed
// symbolically like the repository's own.
func stdInline(name string) bool {
	for _, p := range []string{"(encoding/binary.littleEndian).", "(encoding/binary.bigEndian).", "(encoding/binary.nativeEndian).", "math/bits.", "sort.Reverse"} {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	return false
}
