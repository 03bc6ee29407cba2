package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Obligation is one proof obligation.
type Obligation struct {
	Func   string
	Kind   string // ensures, requires, invariant-init, invariant-step, index, nil, overflow, frame, ...
	Desc   string
	Pos    string
	Goal   *Term // already guarded by the path condition
	Facts  []*Term
	Clause string
	// result
	Status string // proved, failed, unknown
	Solver string
	Time   float64
	Model  string
	ctx    *Ctx
	Cand   bool
	Cover  bool
}

type State struct {
	heaps map[string]*Term
	alloc *Term
}

func (s *State) clone() *State {
	n := &State{heaps: make(map[string]*Term, len(s.heaps)), alloc: s.alloc}
	for k, v := range s.heaps {
		n.heaps[k] = v
	}
	return n
}

// Ctx is the context of verifying one function.
type Ctx struct {
	w                *World
	bv               bool
	con              *Contract
	fn               *ssa.Function
	facts            []*Term
	splits           []*Term
	varsOf           map[*Term][]*Term
	factSet          map[*Term]bool
	obls             []*Obligation
	heap0            map[string]*Term // initial heap symbols
	heapSort         map[string]string
	tags             map[string]int
	boxOf            map[*Term]IfaceV
	funcOf           map[*Term]FuncV
	interior         map[*Term]AddrV
	strs             map[string]*Term
	strDef           []*Term
	assume           map[string]bool // human-readable assumptions made
	inlined          map[string]bool
	called           map[string]bool
	globals          map[*ssa.Global]*Term
	alloc0           *Term
	oldState         *State
	dry              int
	effect           int
	depth            int
	stack            []*ssa.Function
	curFrame         *frame
	pure             bool // evaluating a spec: no obligations
	labels           int
	nloops           int
	noFacts          int
	specDepth        int
	extRefs          map[string]*Term
	candDrop         map[string]bool
	inDefer          int
	usePow2          bool
	shiftOf          map[*Term]*Term
	iterID, frameSeq int
	usedFns          map[string]bool
	usedLemmas       map[string]bool
	recDefs          map[string]recDef
}

type exit struct {
	pc   *Term
	st   *State
	vals []Val
	err  Val
	blk  *ssa.BasicBlock
}

type frame struct {
	x           *Ctx
	fn          *ssa.Function
	env         map[ssa.Value]Val
	params      map[string]Val
	returns     []exit
	throws      []exit
	pending     map[*ssa.BasicBlock][]inEdge
	loops       map[*ssa.BasicBlock]*loopInfo
	rpo         []*ssa.BasicBlock
	rpoIdx      map[*ssa.BasicBlock]int
	done        map[*ssa.BasicBlock]bool
	defers      []deferred
	con         *Contract // contract under verification (top frame only)
	top         bool
	loopHdr     []*ssa.BasicBlock
	collect     *loopRun // innermost loop being run
	old         *State
	recovers    bool
	names       map[string][]ssa.Value
	inRunDefers bool
	frameID     int
}

type deferred struct {
	pc    *Term
	call  *ssa.CallCommon
	args  []Val
	fn    Val
	recv  Val
	instr *ssa.Defer
}

type inEdge struct {
	from *ssa.BasicBlock
	cond *Term
	st   *State
	env  map[ssa.Value]Val // phi values for the target
}

type loopInfo struct {
	header *ssa.BasicBlock
	body   map[*ssa.BasicBlock]bool
	latch  []*ssa.BasicBlock
	ord    int
	depth  int
}

type loopRun struct {
	info  *loopInfo
	outer *loopRun
	back  []inEdge
	exits []struct {
		to *ssa.BasicBlock
		e  inEdge
	}
}

func (x *Ctx) fact(t *Term) {
	if t == tTrue || x.factSet[t] || x.noFacts > 0 {
		return
	}
	if t.op == "and" {
		for _, a := range t.args {
			x.fact(a)
		}
		return
	}
	x.factSet[t] = true
	x.facts = append(x.facts, t)
}

// factScope: the facts added until the returned function is called are then
// dropped again (the obligations made in between keep them).
func (x *Ctx) factScope() func() {
	n := len(x.facts)
	return func() {
		for _, t := range x.facts[n:] {
			delete(x.factSet, t)
		}
		x.facts = x.facts[:n:n]
	}
}

func (x *Ctx) assumeNote(s string) { x.assume[s] = true }

func (x *Ctx) pos(p token.Pos) string {
	if !p.IsValid() {
		return ""
	}
	q := x.w.fset.Position(p)
	f := q.Filename
	if strings.HasPrefix(f, x.w.repo+"/") {
		f = f[len(x.w.repo)+1:]
	}
	return fmt.Sprintf("%s:%d", f, q.Line)
}

func (x *Ctx) oblige(kind, desc string, p token.Pos, pc, goal *Term) {
	if x.pure {
		return
	}
	g := mkImp(pc, goal)
	if x.factSet[g] || x.factSet[goal] || g.op == "or" && x.factSet[mkNot(pc)] {
		g = tTrue
	}
	o := &Obligation{Func: x.fn.String(), Kind: kind, Desc: desc, Pos: x.pos(p), Goal: g, Facts: x.facts[:len(x.facts):len(x.facts)], ctx: x}
	x.obls = append(x.obls, o)
	x.fact(g)
}

// safety is an obligation that the code does not panic here; with "panics" it is an assumption.
func (x *Ctx) safety(kind, desc string, p token.Pos, pc, goal *Term) {
	if x.pure || goal == tTrue {
		if goal == tTrue && !x.pure && x.dry == 0 && !x.con.Panics {
			x.obls = append(x.obls, &Obligation{Func: x.fn.String(), Kind: kind, Desc: desc, Pos: x.pos(p), Goal: tTrue, Facts: x.facts[:len(x.facts):len(x.facts)], ctx: x})
		}
		return
	}
	if x.con.Panics {
		x.assumeNote("runtime panics (" + kind + ") end the call: partial correctness")
		x.fact(mkImp(pc, goal))
		return
	}
	x.oblige(kind, desc, p, pc, goal)
}

// ---- heaps

func (x *Ctx) getHeap(st *State, key, sort string) *Term {
	if h, ok := st.heaps[key]; ok {
		return h
	}
	h, ok := x.heap0[key]
	if !ok {
		h = mkVar("H0_"+sanitizeKey(key), sort)
		x.heap0[key] = h
		x.heapSort[key] = sort
	}
	st.heaps[key] = h
	return h
}
func sanitizeKey(k string) string { return strings.NewReplacer("|", "_", "\\", "_").Replace(k) }

func fieldKey(root types.Type, path string) string { return "F|" + typeKey(root) + "|" + path }
func elemKey(e types.Type, path string) string     { return "E|" + typeKey(e) + "|" + path }

// rootLeafKeys lists heap keys for the leaves of an object type.
func pathStr(p []pstep) string {
	s := ""
	for _, q := range p {
		if q.idx != nil {
			s += "[]"
		} else {
			s += "." + q.name
		}
	}
	return s
}

func (x *Ctx) load(st *State, a AddrV) Val {
	if b, ok := x.interior[a.Ref]; ok && !a.IsElem && len(a.Path) == 0 {
		a = b
	}
	ls := x.leaves(a.T)
	// leading idx steps inside arrays
	var ts []*Term
	pre := pathStr(a.Path)
	if arr, ok := a.Root.Underlying().(*types.Array); ok && !a.IsElem && len(a.Path) == 0 {
		// whole array object
		for _, l := range x.leaves(arr.Elem()) {
			h := x.getHeap(st, elemKey(arr.Elem(), l.path), arrSort(sInt, arrSort(x.idxSort(), l.sort)))
			ts = append(ts, mkSelect(h, a.Ref))
		}
		v := ArrayV{arr, ts}
		return v
	}
	for _, l := range ls {
		ts = append(ts, x.loadLeaf(st, a, pre+l.path, l.sort))
	}
	v := x.fromLeaves(a.T, ts)
	x.typeFacts(v, a.T, st)
	return v
}

// leafSortWithIdx gives the heap leaf sort for a path containing k array-index steps.
func (x *Ctx) wrapIdx(sort string, k int) string {
	for i := 0; i < k; i++ {
		sort = arrSort(x.idxSort(), sort)
	}
	return sort
}

func nIdx(p []pstep) int {
	n := 0
	for _, q := range p {
		if q.idx != nil {
			n++
		}
	}
	return n
}

func (x *Ctx) loadLeaf(st *State, a AddrV, path, sort string) *Term {
	k := nIdx(a.Path)
	full := x.wrapIdx(sort, k)
	var t *Term
	if a.IsElem {
		h := x.getHeap(st, elemKey(a.Root, path), arrSort(sInt, arrSort(x.idxSort(), full)))
		t = mkSelect(mkSelect(h, a.Ref), a.Idx)
	} else {
		h := x.getHeap(st, fieldKey(a.Root, path), arrSort(sInt, full))
		t = mkSelect(h, a.Ref)
	}
	for _, q := range a.Path {
		if q.idx != nil {
			t = mkSelect(t, q.idx)
		}
	}
	return t
}

func (x *Ctx) store(st *State, a AddrV, v Val) {
	if b, ok := x.interior[a.Ref]; ok && !a.IsElem && len(a.Path) == 0 {
		a = b
	}
	pre := pathStr(a.Path)
	ts := x.toLeaves(v, a.T)
	if arr, ok := a.Root.Underlying().(*types.Array); ok && !a.IsElem && len(a.Path) == 0 {
		for i, l := range x.leaves(arr.Elem()) {
			key := elemKey(arr.Elem(), l.path)
			h := x.getHeap(st, key, arrSort(sInt, arrSort(x.idxSort(), l.sort)))
			st.heaps[key] = mkStore(h, a.Ref, ts[i])
		}
		return
	}
	for i, l := range x.leaves(a.T) {
		x.storeLeaf(st, a, pre+l.path, l.sort, ts[i])
	}
}

func storeIdx(base *Term, idx []*Term, v *Term) *Term {
	if len(idx) == 0 {
		return v
	}
	return mkStore(base, idx[0], storeIdx(mkSelect(base, idx[0]), idx[1:], v))
}

func (x *Ctx) storeLeaf(st *State, a AddrV, path, sort string, v *Term) {
	k := nIdx(a.Path)
	full := x.wrapIdx(sort, k)
	var idx []*Term
	idx = append(idx, a.Ref)
	var key, hs string
	if a.IsElem {
		key = elemKey(a.Root, path)
		hs = arrSort(sInt, arrSort(x.idxSort(), full))
		idx = append(idx, a.Idx)
	} else {
		key = fieldKey(a.Root, path)
		hs = arrSort(sInt, full)
	}
	for _, q := range a.Path {
		if q.idx != nil {
			idx = append(idx, q.idx)
		}
	}
	h := x.getHeap(st, key, hs)
	st.heaps[key] = storeIdx(h, idx, v)
}

// typeFacts records facts every value of the type satisfies.
func (x *Ctx) typeFacts(v Val, t types.Type, st *State) {
	x.typeFactsPC(v, t, st, tTrue)
}
func (x *Ctx) typeFactsPC(v Val, t types.Type, st *State, pc *Term) {
	switch a := v.(type) {
	case *Term:
		if a.hasB || isConst(a) {
			return
		}
		if a.sort == sInt {
			if lo, hi, ok := intRange(t); ok {
				x.fact(mkAnd(mkLe(mkBig(lo), a), mkLe(a, mkBig(hi))))
				return
			}
			switch t.Underlying().(type) {
			case *types.Map, *types.Chan, *types.Pointer:
				x.refFacts(a, st)
			}
		}
	case AddrV:
		if !a.IsElem && len(a.Path) == 0 {
			x.refFacts(a.Ref, st)
		}
	case SliceV:
		x.sliceFacts(a, st)
	case StructV:
		u := a.T.Underlying().(*types.Struct)
		for i, f := range a.F {
			x.typeFacts(f, u.Field(i).Type(), st)
		}
	case IfaceV:
		if a.Known == nil && !a.T.hasB {
			x.fact(mkLe(mkInt(0), typOf(a.T)))
			x.fact(mkImp(mkEq(typOf(a.T), mkInt(0)), raw("=", sBool, a.T, nilAny)))
		}
	}
}
func (x *Ctx) refFacts(r *Term, st *State) {
	if r.hasB || isConst(r) {
		return
	}
	x.fact(mkLe(mkInt(0), r))
	if st != nil {
		x.fact(mkLt(r, st.alloc))
	}
}
func (x *Ctx) sliceFacts(a SliceV, st *State) {
	if a.Len.hasB || a.Arr.hasB || a.Off.hasB {
		return
	}
	z := x.idxConst(0)
	x.refFacts(a.Arr, st)
	x.fact(x.leI(z, a.Off, true))
	x.fact(x.leI(z, a.Len, true))
	x.fact(x.leI(a.Len, a.Cap, true))
	if x.bv {
		big40 := mkBV(big.NewInt(1<<40), 64)
		x.fact(x.leI(a.Off, big40, true))
		x.fact(x.leI(a.Cap, big40, true))
	} else {
		lim := mkBig(new(big.Int).Lsh(big.NewInt(1), 62))
		x.fact(mkLe(a.Off, lim))
		x.fact(mkLe(a.Cap, lim))
	}
	x.fact(mkImp(mkEq(a.Arr, mkInt(0)), mkEq(a.Cap, z)))
}

func (x *Ctx) freshVal(hint string, t types.Type, st *State) Val {
	if tt, ok := t.(*types.Tuple); ok {
		var tv TupleV
		for i := 0; i < tt.Len(); i++ {
			tv = append(tv, x.freshVal(hint, tt.At(i).Type(), st))
		}
		return tv
	}
	var ts []*Term
	for _, l := range x.leaves(t) {
		ts = append(ts, fresh(hint+l.path, l.sort))
	}
	v := x.fromLeaves(t, ts)
	x.typeFacts(v, t, st)
	return v
}

// ---- merging
func (x *Ctx) mergeVal(c *Term, a, b Val, t types.Type) Val {
	if a == nil || b == nil {
		return Poison{"undefined value"}
	}
	switch p := a.(type) {
	case *Term:
		if q, ok := b.(*Term); ok && p.sort == q.sort {
			return mkIte(c, p, q)
		}
	case AddrV:
		if q, ok := b.(AddrV); ok {
			if p.IsElem == q.IsElem && len(p.Path) == len(q.Path) && types.Identical(p.Root, q.Root) {
				r := p
				r.Ref = mkIte(c, p.Ref, q.Ref)
				if p.IsElem {
					r.Idx = mkIte(c, p.Idx, q.Idx)
				}
				r.Path = append([]pstep{}, p.Path...)
				ok := true
				for i := range p.Path {
					if (p.Path[i].idx == nil) != (q.Path[i].idx == nil) || p.Path[i].field != q.Path[i].field {
						ok = false
						break
					}
					if p.Path[i].idx != nil {
						r.Path[i].idx = mkIte(c, p.Path[i].idx, q.Path[i].idx)
					}
				}
				if ok {
					return r
				}
			}
			return Poison{"merged interior pointers"}
		}
	case SliceV:
		if q, ok := b.(SliceV); ok {
			return SliceV{p.Elem, mkIte(c, p.Arr, q.Arr), mkIte(c, p.Off, q.Off), mkIte(c, p.Len, q.Len), mkIte(c, p.Cap, q.Cap)}
		}
	case StructV:
		if q, ok := b.(StructV); ok && len(p.F) == len(q.F) {
			r := StructV{T: p.T}
			for i := range p.F {
				r.F = append(r.F, x.mergeVal(c, p.F[i], q.F[i], nil))
			}
			return r
		}
	case ArrayV:
		if q, ok := b.(ArrayV); ok {
			r := ArrayV{T: p.T}
			for i := range p.Leaves {
				r.Leaves = append(r.Leaves, mkIte(c, p.Leaves[i], q.Leaves[i]))
			}
			return r
		}
	case TupleV:
		if q, ok := b.(TupleV); ok && len(p) == len(q) {
			var r TupleV
			for i := range p {
				r = append(r, x.mergeVal(c, p[i], q[i], nil))
			}
			return r
		}
	case IfaceV:
		if q, ok := b.(IfaceV); ok {
			if p.Known != nil && q.Known != nil && types.Identical(p.Known, q.Known) {
				m := x.mergeVal(c, p.V, q.V, p.Known)
				if _, bad := m.(Poison); !bad {
					return IfaceV{Known: p.Known, V: m}
				}
			}
			return x.anyVal(mkIte(c, x.box(p), x.box(q)))
		}
	case FuncV:
		if q, ok := b.(FuncV); ok {
			if p.T == nil && q.T == nil && p.Fn == q.Fn && len(p.Bind) == len(q.Bind) {
				r := FuncV{Fn: p.Fn}
				for i := range p.Bind {
					r.Bind = append(r.Bind, x.mergeVal(c, p.Bind[i], q.Bind[i], nil))
				}
				return r
			}
			tp, tq := p.T, q.T
			if tp == nil {
				tp = x.funcTerm(p)
			}
			if tq == nil {
				tq = x.funcTerm(q)
			}
			return FuncV{T: mkIte(c, tp, tq)}
		}
	}
	if _, ok := a.(Poison); ok {
		return a
	}
	return Poison{fmt.Sprintf("merge of %T and %T", a, b)}
}

func (x *Ctx) mergeStates(cs []*Term, ss []*State) *State {
	if len(ss) == 1 {
		return ss[0].clone()
	}
	keys := map[string]bool{}
	for _, s := range ss {
		for k := range s.heaps {
			keys[k] = true
		}
	}
	n := &State{heaps: map[string]*Term{}}
	get := func(s *State, k string) *Term {
		if h, ok := s.heaps[k]; ok {
			return h
		}
		return x.heap0[k]
	}
	for k := range keys {
		r := get(ss[len(ss)-1], k)
		for i := len(ss) - 2; i >= 0; i-- {
			r = mkIte(cs[i], get(ss[i], k), r)
		}
		n.heaps[k] = r
	}
	r := ss[len(ss)-1].alloc
	for i := len(ss) - 2; i >= 0; i-- {
		r = mkIte(cs[i], ss[i].alloc, r)
	}
	if r.op == "ite" {
		// a named maximum keeps later references in linear normal form
		m := fresh("alloc", sInt)
		allocAbove[m] = ss[0].alloc
		for i := range ss {
			x.fact(mkImp(cs[i], mkLe(ss[i].alloc, m)))
		}
		x.fact(mkLe(x.alloc0, m))
		r = m
	}
	n.alloc = r
	return n
}

// ---- frames and CFG

func newFrame(x *Ctx, fn *ssa.Function) *frame {
	f := &frame{x: x, fn: fn, env: map[ssa.Value]Val{}, params: map[string]Val{}, pending: map[*ssa.BasicBlock][]inEdge{}, loops: map[*ssa.BasicBlock]*loopInfo{}, rpoIdx: map[*ssa.BasicBlock]int{}, done: map[*ssa.BasicBlock]bool{}}
	f.analyse()
	return f
}

func (f *frame) analyse() {
	fn := f.fn
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for _, s := range b.Succs {
			if !seen[s] {
				dfs(s)
			}
		}
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	for i := len(post) - 1; i >= 0; i-- {
		f.rpoIdx[post[i]] = len(f.rpo)
		f.rpo = append(f.rpo, post[i])
	}
	for _, b := range f.rpo {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				li := f.loops[s]
				if li == nil {
					li = &loopInfo{header: s, body: map[*ssa.BasicBlock]bool{s: true}}
					f.loops[s] = li
				}
				li.latch = append(li.latch, b)
				var add func(n *ssa.BasicBlock)
				add = func(n *ssa.BasicBlock) {
					if li.body[n] {
						return
					}
					li.body[n] = true
					for _, p := range n.Preds {
						if seen[p] {
							add(p)
						}
					}
				}
				add(b)
			}
		}
	}
	for _, b := range f.rpo {
		if li, ok := f.loops[b]; ok {
			li.ord = len(f.loopHdr)
			f.loopHdr = append(f.loopHdr, b)
		}
	}
	// source order: loops are numbered by the position of their header's first position
	sort.SliceStable(f.loopHdr, func(i, j int) bool { return loopPos(f.loops[f.loopHdr[i]]) < loopPos(f.loops[f.loopHdr[j]]) })
	for i, b := range f.loopHdr {
		f.loops[b].ord = i
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if d, ok := in.(*ssa.Defer); ok {
				if c := d.Call.StaticCallee(); c != nil && strings.HasSuffix(c.String(), "go-thrower.RecoverError") {
					f.recovers = true
				}
			}
		}
	}
}

func loopPos(l *loopInfo) token.Pos {
	var m token.Pos
	for b := range l.body {
		for _, in := range b.Instrs {
			if _, phi := in.(*ssa.Phi); phi {
				continue // placed at the variable's declaration
			}
			p := in.Pos()
			if _, ok := in.(*ssa.DebugRef); ok {
				continue
			}
			if p.IsValid() && (m == 0 || p < m) {
				m = p
			}
		}
	}
	return m
}

// run executes the function from its entry.
func (f *frame) run(st *State, pc *Term) {
	f.pending[f.fn.Blocks[0]] = []inEdge{{nil, pc, st, nil}}
	f.runBlocks(f.rpo, nil)
}

func (f *frame) runBlocks(order []*ssa.BasicBlock, within *loopRun) {
	for _, b := range order {
		if f.done[b] {
			continue
		}
		if li, ok := f.loops[b]; ok && (within == nil || within.info != li) {
			f.runLoop(li, within)
			continue
		}
		f.done[b] = true
		ins := f.pending[b]
		delete(f.pending, b)
		st, pc, ok := f.enter(b, ins)
		if !ok {
			continue
		}
		f.execBlock(b, st, pc, within)
	}
}

// enter merges incoming edges and sets the phis.
func (f *frame) enter(b *ssa.BasicBlock, ins []inEdge) (*State, *Term, bool) {
	var live []inEdge
	for _, e := range ins {
		if e.cond != tFalse {
			live = append(live, e)
		}
	}
	if len(live) == 0 {
		return nil, nil, false
	}
	x := f.x
	var cs []*Term
	var ss []*State
	for _, e := range live {
		cs = append(cs, e.cond)
		ss = append(ss, e.st)
	}
	pc := mkOr(cs...)
	st := x.mergeStates(cs, ss)
	for _, in := range b.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		v := live[len(live)-1].env[phi]
		for i := len(live) - 2; i >= 0; i-- {
			v = x.mergeVal(cs[i], live[i].env[phi], v, phi.Type())
		}
		f.env[phi] = v
	}
	return st, pc, true
}

func (f *frame) edge(from, to *ssa.BasicBlock, cond *Term, st *State, within *loopRun) {
	if cond == tFalse {
		return
	}
	e := inEdge{from: from, cond: cond, st: st.clone(), env: map[ssa.Value]Val{}}
	pi := -1
	for i, p := range to.Preds {
		if p == from {
			pi = i
		}
	}
	for _, in := range to.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		e.env[phi] = f.val(phi.Edges[pi], st)
	}
	if within != nil {
		if to == within.info.header {
			within.back = append(within.back, e)
			return
		}
		if !within.info.body[to] {
			within.exits = append(within.exits, struct {
				to *ssa.BasicBlock
				e  inEdge
			}{to, e})
			return
		}
	}
	f.pending[to] = append(f.pending[to], e)
}

func (f *frame) route(to *ssa.BasicBlock, e inEdge, within *loopRun) {
	if within != nil {
		if to == within.info.header {
			within.back = append(within.back, e)
			return
		}
		if !within.info.body[to] {
			within.exits = append(within.exits, struct {
				to *ssa.BasicBlock
				e  inEdge
			}{to, e})
			return
		}
	}
	f.pending[to] = append(f.pending[to], e)
}

type snapshot struct {
	facts, obls, returns, throws, defers int
}

func (f *frame) snap() snapshot {
	return snapshot{len(f.x.facts), len(f.x.obls), len(f.returns), len(f.throws), len(f.defers)}
}
func (f *frame) rollback(s snapshot) {
	for _, t := range f.x.facts[s.facts:] {
		delete(f.x.factSet, t)
	}
	f.x.facts = f.x.facts[:s.facts]
	f.x.obls = f.x.obls[:s.obls]
	f.returns = f.returns[:s.returns]
	f.throws = f.throws[:s.throws]
	f.defers = f.defers[:s.defers]
}

func bodyOrder(f *frame, li *loopInfo) []*ssa.BasicBlock {
	var out []*ssa.BasicBlock
	for _, b := range f.rpo {
		if li.body[b] {
			out = append(out, b)
		}
	}
	return out
}

// storeTargets returns the set of top-level references written in going from h to t, or false.
func storeTargets(t, h *Term, out map[*Term]bool) bool {
	for {
		if t == h {
			return true
		}
		switch t.op {
		case "store":
			out[t.args[1]] = true
			t = t.args[0]
		case "ite":
			if !storeTargets(t.args[2], h, out) {
				return false
			}
			t = t.args[1]
		default:
			if b, ok := havocBase[t]; ok {
				for _, r := range b.refs {
					out[r] = true
				}
				if b.fresh {
					out[freshMark] = true
				}
				t = b.base
				continue
			}
			return false
		}
	}
}

var freshMark = mkVar("fresh-objects", sInt)

// havocBase: a heap symbol known to agree with base outside refs (and outside objects allocated later).
type hb struct {
	base  *Term
	refs  []*Term
	fresh bool
}

var havocBase = map[*Term]hb{}

func mentions(t *Term, set map[*Term]bool, memo map[*Term]int) bool {
	if set[t] {
		return true
	}
	if r, ok := memo[t]; ok {
		return r == 1
	}
	memo[t] = 0
	r := false
	for _, a := range t.args {
		if mentions(a, set, memo) {
			r = true
			break
		}
	}
	if r {
		memo[t] = 1
	}
	return r
}

func (f *frame) runLoop(li *loopInfo, within *loopRun) {
	x := f.x
	b := li.header
	ins := f.pending[b]
	delete(f.pending, b)
	order := bodyOrder(f, li)
	st0, pc0, ok := f.enter(b, ins)
	if !ok {
		for _, n := range order {
			f.done[n] = true
		}
		return
	}
	var phis []*ssa.Phi
	for _, in := range b.Instrs {
		if p, ok := in.(*ssa.Phi); ok {
			phis = append(phis, p)
		} else {
			break
		}
	}
	entryVals := map[*ssa.Phi]Val{}
	for _, p := range phis {
		entryVals[p] = f.env[p]
	}
	envBase := map[ssa.Value]Val{}
	for k, v := range f.env {
		envBase[k] = v
	}
	// --- which phi leaves and heaps change? (optimistic fixpoint over symbolic runs of the body)
	changedLeaf := map[string]bool{}
	changedHeap := map[string]bool{}
	heapTargets := map[string]map[*Term]bool{} // nil entry: anything
	heapAll := map[string]bool{}
	heapFresh := map[string]bool{}
	allocChanged := false
	var run *loopRun
	var hdrState *State
	hdrVals := map[*ssa.Phi]Val{}
	hdrSyms := map[*Term]bool{}
	// stable symbols per (leaf) so that repeated dry runs agree
	symLeaf := map[string]*Term{}
	symHeap := map[string]*Term{}
	symAlloc := fresh("alloc", sInt)
	allocAbove[symAlloc] = st0.alloc
	tag := fmt.Sprintf("%s.L%d", f.fn.Name(), li.ord)
	setup := func() {
		hdrState = st0.clone()
		hdrSyms = map[*Term]bool{}
		for _, p := range phis {
			ev := entryVals[p]
			if _, bad := ev.(Poison); bad {
				f.env[p] = ev
				hdrVals[p] = ev
				continue
			}
			// static function / interior pointer values stay as they are unless changed
			var ts []*Term
			any := false
			func() {
				defer func() {
					if r := recover(); r != nil {
						if _, ok := r.(unsupported); !ok {
							panic(r)
						}
						any = false
						ts = nil
					}
				}()
				for i, t := range x.toLeaves(ev, p.Type()) {
					k := fmt.Sprintf("%s#%d", p.Name(), i)
					if changedLeaf[k] {
						s := symLeaf[k]
						if s == nil {
							s = fresh(p.Comment, t.sort)
							symLeaf[k] = s
						}
						hdrSyms[s] = true
						ts = append(ts, s)
						any = true
					} else {
						ts = append(ts, t)
					}
				}
			}()
			if !any {
				f.env[p] = ev
				hdrVals[p] = ev
				continue
			}
			var v Val
			if iv, ok := ev.(IfaceV); ok && iv.Known != nil && !changedLeaf[p.Name()+"#type"] {
				v = x.fromLeaves(p.Type(), ts)
			} else {
				v = x.fromLeaves(p.Type(), ts)
			}
			f.env[p] = v
			hdrVals[p] = v
		}
		if allocChanged {
			hdrState.alloc = symAlloc
			hdrSyms[symAlloc] = true
		}
		for k := range changedHeap {
			if symHeap[k] == nil {
				symHeap[k] = fresh("L_"+sanitizeKey(k), x.heapSort[k])
			}
			hdrState.heaps[k] = symHeap[k]
			hdrSyms[symHeap[k]] = true
		}
	}
	// facts about the header state
	headerFacts := func() {
		if allocChanged {
			x.fact(mkLe(st0.alloc, symAlloc))
		}
		for _, k := range sortedKeys(changedHeap) {
			s := symHeap[k]
			base, ok := st0.heaps[k]
			if !ok {
				base = x.heap0[k]
			}
			delete(havocBase, s)
			if heapAll[k] {
				continue
			}
			var refs []*Term
			for _, r := range sortedTerms(heapTargets[k]) {
				refs = append(refs, r)
			}
			havocBase[s] = hb{base, refs, heapFresh[k]}
			r := freshBound("r", sInt)
			g := []*Term{}
			for _, t := range refs {
				g = append(g, mkNot(mkEq(r, t)))
			}
			if heapFresh[k] {
				g = append(g, mkLt(r, st0.alloc))
			}
			x.fact(mkForall([]*Term{r}, mkImp(mkAnd(g...), mkEq(mkSelect(s, r), mkSelect(base, r))), []*Term{mkSelect(s, r)}))
		}
		for _, p := range phis {
			v := hdrVals[p]
			if _, bad := v.(Poison); bad {
				continue
			}
			x.typeFacts(v, p.Type(), hdrState)
		}
	}
	runBody := func(pc *Term) {
		for _, n := range order {
			f.done[n] = false
			delete(f.pending, n)
		}
		run = &loopRun{info: li, outer: within}
		f.done[b] = true
		f.execBlock(b, hdrState.clone(), pc, run)
		f.runBlocks(order, run)
	}
	sn := f.snap()
	x.dry++
	x.effect++
	for iter := 0; ; iter++ {
		if iter > 30 {
			unsup("loop effects do not stabilise")
		}
		f.rollback(sn)
		setup()
		headerFacts()
		runBody(pc0)
		again := false
		for _, e := range run.back {
			for _, p := range phis {
				hv := hdrVals[p]
				bvv := e.env[p]
				if _, bad := hv.(Poison); bad {
					continue
				}
				if _, bad := bvv.(Poison); bad {
					if _, had := hv.(Poison); !had {
						entryVals[p] = bvv
						again = true
					}
					continue
				}
				func() {
					defer func() {
						if r := recover(); r != nil {
							if u, ok := r.(unsupported); ok {
								entryVals[p] = Poison{"loop-carried " + p.Comment + ": " + u.msg}
								again = true
								return
							}
							panic(r)
						}
					}()
					ht := x.toLeaves(hv, p.Type())
					bt := x.toLeaves(bvv, p.Type())
					if len(ht) != len(bt) {
						entryVals[p] = Poison{"loop-carried " + p.Comment}
						again = true
						return
					}
					for i := range ht {
						if ht[i] != bt[i] {
							k := fmt.Sprintf("%s#%d", p.Name(), i)
							if !changedLeaf[k] {
								changedLeaf[k] = true
								again = true
							}
						}
					}
				}()
			}
			if e.st.alloc != hdrState.alloc && !allocChanged {
				allocChanged = true
				again = true
			}
			for k, h := range e.st.heaps {
				hh, ok := hdrState.heaps[k]
				if !ok {
					hh = x.heap0[k]
				}
				if h == hh {
					continue
				}
				if !changedHeap[k] {
					changedHeap[k] = true
					heapTargets[k] = map[*Term]bool{}
					again = true
					continue // which objects: asked again from the loop's own symbol
				}
				if heapAll[k] || hh != symHeap[k] {
					continue // the body has not been run from the loop's own symbol yet
				}
				tg := map[*Term]bool{}
				if !storeTargets(h, hh, tg) {
					heapAll[k] = true
					again = true
					continue
				}
				memo := map[*Term]int{}
				for r := range tg {
					if r == freshMark {
						if !heapFresh[k] {
							heapFresh[k] = true
							again = true
						}
						continue
					}
					// allocated inside the loop?
					d := mkSub(r, symAlloc)
					if isConst(d) && d.num.Sign() >= 0 || x.isFreshSince(r, hdrState.alloc) {
						if !heapFresh[k] {
							heapFresh[k] = true
							again = true
						}
						continue
					}
					if mentions(r, hdrSyms, memo) || newSince(r, sn) {
						if !heapAll[k] {
							heapAll[k] = true
							again = true
						}
						continue
					}
					if !heapTargets[k][r] {
						heapTargets[k][r] = true
						again = true
					}
				}
			}
		}
		if !again {
			break
		}
	}
	x.dry--
	x.effect--
	if x.effect > 0 {
		// an enclosing loop is only asking what is written here
		for _, n := range order {
			f.done[n] = true
		}
		for _, ex := range run.exits {
			f.route(ex.to, ex.e, within)
		}
		return
	}
	f.rollback(sn)
	// --- invariants
	var ls *LoopSpec
	if f.con != nil {
		ls = f.con.Loops[li.ord]
	}
	type inv struct {
		text string
		eval func(vals map[*ssa.Phi]Val, st *State) *Term
		cand bool
		line string
	}
	var invs []inv
	initState := st0.clone()
	mkEnv := func(vals map[*ssa.Phi]Val, st *State) *specEnv {
		ev := f.specEnvAt(st, li, vals)
		ev.initState = initState
		ev.initVals = entryVals
		return ev
	}
	if ls != nil {
		for _, c := range ls.Inv {
			c := c
			invs = append(invs, inv{c.Text, func(vals map[*ssa.Phi]Val, st *State) *Term {
				return x.evalClause(c, mkEnv(vals, st))
			}, false, c.Line})
		}
	}
	for _, c := range f.candidates(li, phis, entryVals, hdrVals, changedLeaf, symLeaf, run) {
		c := c
		if x.candDrop[tag+c.text] {
			continue
		}
		invs = append(invs, inv{c.text, func(vals map[*ssa.Phi]Val, st *State) *Term { return c.eval(vals) }, true, ""})
	}
	// objects from before the loop, other than those it is seen to write, stay
	// as they are: for heaps where a loop-carried reference is written through
	if !x.bv && !(f.con != nil && f.con.NoAuto) {
		var carried []*Term // slices carried around the loop: what they were at entry
		for _, p := range phis {
			if _, bad := hdrVals[p].(Poison); bad {
				continue
			}
			sv, ok := entryVals[p].(SliceV)
			if !ok || !changedLeaf[fmt.Sprintf("%s#%d", p.Name(), 0)] {
				continue
			}
			ent := sv.Arr
			p := p
			if ent.op != "const" {
				carried = append(carried, ent)
			}
			c := inv{fmt.Sprintf("%s is its entry slice or newer than the loop", p.Name()), func(vals map[*ssa.Phi]Val, st *State) *Term {
				v, ok := vals[p].(SliceV)
				if !ok {
					return tFalse
				}
				return mkOr(mkEq(v.Arr, ent), mkLe(st0.alloc, v.Arr))
			}, true, ""}
			if !x.candDrop[tag+c.text] {
				invs = append(invs, c)
			}
		}
		for _, k := range sortedKeys(heapAll) {
			if !heapAll[k] || !changedHeap[k] || strings.HasPrefix(k, "R|") {
				continue
			}
			k := k
			base, ok := st0.heaps[k]
			if !ok {
				base = x.heap0[k]
			}
			var refs []*Term
			for _, r := range sortedTerms(heapTargets[k]) {
				refs = append(refs, r)
			}
			refs = append(refs, carried...)
			c := inv{"older objects unchanged: " + k, func(vals map[*ssa.Phi]Val, st *State) *Term {
				h := st.heaps[k]
				if h == nil {
					h = x.heap0[k]
				}
				base := base
				if base == nil {
					base = x.heap0[k]
				}
				if h == nil || base == nil {
					return tTrue
				}
				r := freshBound("r", sInt)
				g := []*Term{mkLt(r, st0.alloc)}
				for _, t := range refs {
					g = append(g, mkNot(mkEq(r, t)))
				}
				a := mkSelect(h, r)
				if a == mkSelect(base, r) {
					return tTrue
				}
				if a.op != "select" || a.args[1] != r {
					return mkForall([]*Term{r}, mkImp(mkAnd(g...), mkEq(a, mkSelect(base, r))))
				}
				return mkForall([]*Term{r}, mkImp(mkAnd(g...), mkEq(a, mkSelect(base, r))), []*Term{a})
			}, true, ""}
			if !x.candDrop[tag+c.text] {
				invs = append(invs, c)
			}
		}
	}
	f.restoreEnv(envBase)
	// establish
	var live []inv
	used := false
	if x.dry == 0 || true {
		for _, iv := range invs {
			if iv.cand {
				g := iv.eval(entryVals, initState)
				if g != tTrue {
					if !x.quick(mkImp(pc0, g)) {
						continue
					}
				}
				live = append(live, iv)
				continue
			}
			if !used {
				used = true
				f.useLemmas(ls, mkEnv(entryVals, initState), pc0)
			}
			g := iv.eval(entryVals, initState)
			x.obligeClause("invariant-entry", iv.text, iv.line, loopPos(li), pc0, g)
			live = append(live, iv)
		}
	}
	// houdini over the candidates
	for {
		sn2 := f.snap()
		x.dry++
		setup()
		headerFacts()
		for _, iv := range live {
			x.fact(mkImp(pc0, iv.eval(hdrVals, hdrState)))
		}
		f.useLemmas(ls, mkEnv(hdrVals, hdrState), pc0)
		runBody(pc0)
		drop := map[int]bool{}
		var goals []*Term
		var gi []int
		for i, iv := range live {
			if !iv.cand {
				continue
			}
			for _, e := range run.back {
				g := mkImp(e.cond, iv.eval(phiVals(phis, e), e.st))
				if g == tTrue {
					continue
				}
				goals = append(goals, g)
				gi = append(gi, i)
			}
		}
		if len(goals) > 0 {
			for j, ok := range x.quickAll(goals) {
				if !ok {
					drop[gi[j]] = true
				}
			}
		}
		x.dry--
		f.rollback(sn2)
		f.restoreEnv(envBase)
		if len(drop) == 0 {
			break
		}
		var nl []inv
		for i, iv := range live {
			if drop[i] {
				x.candDrop[tag+iv.text] = true
				continue
			}
			nl = append(nl, iv)
		}
		live = nl
	}
	// --- final run
	setup()
	headerFacts()
	for _, iv := range live {
		x.fact(mkImp(pc0, iv.eval(hdrVals, hdrState)))
	}
	env := mkEnv(hdrVals, hdrState)
	f.useLemmas(ls, env, pc0)
	var dec []*Term
	if ls != nil {
		for _, c := range ls.Dec {
			dec = append(dec, x.evalTerm(c, env))
		}
	}
	hdrValsCopy := map[*ssa.Phi]Val{}
	for k, v := range hdrVals {
		hdrValsCopy[k] = v
	}
	runBody(pc0)
	for _, e := range run.back {
		pv := phiVals(phis, e)
		end := x.factScope()
		step := func(k int) {
			if ls == nil {
				return
			}
			for _, s := range ls.Step {
				if s.After >= len(ls.Inv) {
					s.After = 0 // written after them all: holds for all
				}
				if s.After != k {
					continue
				}
				ev := mkEnv(pv, e.st)
				ev.prevState, ev.prevVals = hdrState, hdrVals
				if s.Assert {
					g := x.evalClause(s.C, ev)
					x.obligeClause("step", s.C.Text, s.C.Line, loopPos(li), e.cond, g)
					x.fact(mkImp(e.cond, g))
				} else {
					x.useLemma(s.C, ev, e.cond)
				}
			}
		}
		expl := 0
		for _, iv := range live {
			if !iv.cand {
				step(expl)
				expl++
			}
			g := iv.eval(pv, e.st)
			kind := "invariant-step"
			if iv.cand {
				kind = "inferred-invariant-step"
			}
			x.obligeClause(kind, iv.text, iv.line, loopPos(li), e.cond, g)
		}
		if expl == 0 {
			step(0)
		}
		if ls != nil {
			for i, c := range ls.Dec {
				d := x.evalTerm(c, mkEnv(pv, e.st))
				x.obligeClause("decreases", c.Text, c.Line, loopPos(li), e.cond, mkAnd(x.leI(x.idxConst(0), dec[i], true), x.ltI(d, dec[i], true)))
			}
		}
		end()
	}
	for _, n := range order {
		f.done[n] = true
	}
	for _, ex := range run.exits {
		f.route(ex.to, ex.e, within)
	}
}

func phiVals(phis []*ssa.Phi, e inEdge) map[*ssa.Phi]Val {
	m := map[*ssa.Phi]Val{}
	for _, p := range phis {
		m[p] = e.env[p]
	}
	return m
}

func (f *frame) restoreEnv(base map[ssa.Value]Val) {
	f.env = map[ssa.Value]Val{}
	for k, v := range base {
		f.env[k] = v
	}
}

func newSince(t *Term, s snapshot) bool { return false }

func (x *Ctx) isFreshSince(r, alloc *Term) bool {
	d := mkSub(r, alloc)
	if isConst(d) && d.num.Sign() >= 0 {
		return true
	}
	// refs returned fresh by callees are marked
	if b, ok := freshSince[r]; ok {
		for {
			if b == alloc {
				return true
			}
			d := mkSub(b, alloc)
			if isConst(d) && d.num.Sign() >= 0 {
				return true
			}
			// base symbol of b
			base := allocBase(b)
			nb, ok := allocAbove[base]
			if !ok {
				return false
			}
			b = nb
		}
	}
	// r = someAlloc + k where someAlloc is known to be above alloc
	base := allocBase(r)
	for base != nil {
		nb, ok := allocAbove[base]
		if !ok {
			return false
		}
		d := mkSub(nb, alloc)
		if isConst(d) && d.num.Sign() >= 0 {
			return true
		}
		base = allocBase(nb)
	}
	return false
}

var freshSince = map[*Term]*Term{}
var allocAbove = map[*Term]*Term{} // alloc symbol -> alloc term it is >= to

func allocBase(t *Term) *Term {
	if t.op == "var" {
		return t
	}
	if t.op == "lin" && len(t.args) == 1 && t.coef[0].Cmp(big.NewInt(1)) == 0 && t.num.Sign() >= 0 {
		return t.args[0]
	}
	return nil
}

func sortedKeys(m map[string]bool) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
func sortedTerms(m map[*Term]bool) []*Term {
	var ks []*Term
	for k := range m {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].id < ks[j].id })
	return ks
}

func (x *Ctx) obligeClause(kind, text, line string, p token.Pos, pc, g *Term) {
	if x.pure {
		return
	}
	x.oblige(kind, text, p, pc, g)
	x.obls[len(x.obls)-1].Clause = line
}

// ---- inferred invariants
type cand struct {
	text string
	eval func(vals map[*ssa.Phi]Val) *Term
}

func (f *frame) candidates(li *loopInfo, phis []*ssa.Phi, entry, hdr map[*ssa.Phi]Val, changed map[string]bool, sym map[string]*Term, run *loopRun) []cand {
	x := f.x
	if x.bv || (f.con != nil && f.con.NoAuto) {
		return nil
	}
	var out []cand
	type iv struct {
		p    *ssa.Phi
		i    int
		ent  *Term
		hd   *Term
		step *Term
		name string
	}
	var ivs []iv
	leafOf := func(v Val, p *ssa.Phi, i int) *Term {
		if _, bad := v.(Poison); bad {
			return nil
		}
		ts := x.toLeaves(v, p.Type())
		if i >= len(ts) {
			return nil
		}
		return ts[i]
	}
	for _, p := range phis {
		if _, bad := hdr[p].(Poison); bad {
			continue
		}
		if _, bad := entry[p].(Poison); bad {
			continue
		}
		ls := x.leaves(p.Type())
		for i, l := range ls {
			k := fmt.Sprintf("%s#%d", p.Name(), i)
			if !changed[k] || l.sort != sInt {
				continue
			}
			isInt := false
			if l.t != nil {
				_, _, isInt = intInfo(l.t)
			} else if l.kind == "off" || l.kind == "len" || l.kind == "cap" {
				isInt = true
			}
			if !isInt {
				continue
			}
			ent := leafOf(entry[p], p, i)
			hd := leafOf(hdr[p], p, i)
			var step *Term
			same := true
			for _, e := range run.back {
				b := leafOf(e.env[p], p, i)
				if b == nil {
					same = false
					break
				}
				s := mkSub(b, hd)
				if step == nil {
					step = s
				} else if step != s {
					same = false
				}
			}
			if !same || step == nil {
				step = nil
			}
			v := iv{p, i, ent, hd, step, p.Comment + l.path}
			ivs = append(ivs, v)
			get := func(vals map[*ssa.Phi]Val) *Term { return leafOf(vals[v.p], v.p, v.i) }
			add := func(text string, e func(t *Term) *Term) {
				out = append(out, cand{fmt.Sprintf("%s: %s", v.p.Name(), text), func(vals map[*ssa.Phi]Val) *Term {
					t := get(vals)
					if t == nil {
						return tFalse
					}
					return e(t)
				}})
			}
			up, down := true, true
			if step != nil && isConst(step) {
				if step.num.Sign() > 0 {
					down = false
				}
				if step.num.Sign() < 0 {
					up = false
				}
			}
			if up {
				add(v.name+" >= entry", func(t *Term) *Term { return mkLe(v.ent, t) })
			}
			if down {
				add(v.name+" <= entry", func(t *Term) *Term { return mkLe(t, v.ent) })
			}
			if _, signed, _ := intInfoOr(l.t); signed {
				add(v.name+" >= 0", func(t *Term) *Term { return mkLe(mkInt(0), t) })
				if isConst(v.ent) && v.ent.num.Sign() < 0 {
					add(v.name+" >= -1", func(t *Term) *Term { return mkLe(mkInt(-1), t) })
				}
			}
			// bounds from comparisons in the loop with loop-invariant terms
			for _, bd := range f.loopBounds(li, p, i) {
				bd := bd
				bt := x.boundTerm(bd, f, li)
				if bt == nil {
					continue
				}
				if up {
					add(fmt.Sprintf("%s <= %s", v.name, "bound"+fmt.Sprint(bt.id)), func(t *Term) *Term { return mkLe(t, bt) })
					add(fmt.Sprintf("%s < %s", v.name, "bound"+fmt.Sprint(bt.id)), func(t *Term) *Term { return mkLt(t, bt) })
				}
				if down {
					add(fmt.Sprintf("%s >= %s", v.name, "bound"+fmt.Sprint(bt.id)), func(t *Term) *Term { return mkLe(bt, t) })
				}
			}
		}
	}
	// linear relations between induction variables
	for a := 0; a < len(ivs); a++ {
		for b := 0; b < len(ivs); b++ {
			if a == b || ivs[a].step == nil || ivs[b].step == nil {
				continue
			}
			A, B := ivs[a], ivs[b]
			ga := func(vals map[*ssa.Phi]Val) *Term { return leafOf(vals[A.p], A.p, A.i) }
			gb := func(vals map[*ssa.Phi]Val) *Term { return leafOf(vals[B.p], B.p, B.i) }
			if A.step == B.step && a < b {
				out = append(out, cand{fmt.Sprintf("%s#%d-entry == %s#%d-entry", A.p.Name(), A.i, B.p.Name(), B.i), func(vals map[*ssa.Phi]Val) *Term {
					return mkEq(mkSub(ga(vals), A.ent), mkSub(gb(vals), B.ent))
				}})
			} else if A.step == mkNeg(B.step) && a < b {
				out = append(out, cand{fmt.Sprintf("%s#%d-entry == -(%s#%d-entry)", A.p.Name(), A.i, B.p.Name(), B.i), func(vals map[*ssa.Phi]Val) *Term {
					return mkEq(mkSub(ga(vals), A.ent), mkSub(B.ent, gb(vals)))
				}})
			} else if isConst(B.step) && B.step.num.CmpAbs(big.NewInt(1)) == 0 && A.step != B.step && A.step != mkNeg(B.step) {
				st := A.step
				if B.step.num.Sign() < 0 {
					st = mkNeg(st)
				}
				out = append(out, cand{fmt.Sprintf("%s#%d-entry == step*(%s#%d-entry)", A.p.Name(), A.i, B.p.Name(), B.i), func(vals map[*ssa.Phi]Val) *Term {
					return mkEq(mkSub(ga(vals), A.ent), mkMul(st, mkSub(gb(vals), B.ent)))
				}})
			}
		}
	}
	if f.x.w.debug {
		for _, c := range out {
			fmt.Fprintln(os.Stderr, "  candidate", f.fn.Name(), li.ord, c.text)
		}
	}
	return out
}

func intInfoOr(t types.Type) (int, bool, bool) {
	if t == nil {
		return 64, true, true
	}
	return intInfo(t)
}

// loopBounds finds values compared with the phi (or phi+1) inside the loop.
func (f *frame) loopBounds(li *loopInfo, p *ssa.Phi, i int) []ssa.Value {
	var out []ssa.Value
	rel := map[ssa.Value]bool{p: true}
	for k := 0; k < 2; k++ {
		for b := range li.body {
			for _, in := range b.Instrs {
				switch v := in.(type) {
				case *ssa.BinOp:
					if (v.Op == token.ADD || v.Op == token.SUB) && (rel[v.X] || rel[v.Y]) {
						rel[v] = true
					}
				case *ssa.Convert:
					if rel[v.X] {
						rel[v] = true
					}
				}
			}
		}
	}
	var bs []*ssa.BasicBlock
	for b := range li.body {
		bs = append(bs, b)
	}
	sort.Slice(bs, func(a, b int) bool { return bs[a].Index < bs[b].Index })
	for _, b := range bs {
		for _, in := range b.Instrs {
			if v, ok := in.(*ssa.BinOp); ok {
				switch v.Op {
				case token.LSS, token.LEQ, token.GTR, token.GEQ, token.NEQ, token.EQL:
					if rel[v.X] && !rel[v.Y] {
						out = append(out, v.Y)
					}
					if rel[v.Y] && !rel[v.X] {
						out = append(out, v.X)
					}
				}
			}
		}
	}
	return out
}

// boundTerm is the term of a loop-invariant value, if it is one.
func (x *Ctx) boundTerm(v ssa.Value, f *frame, li *loopInfo) *Term {
	if in, ok := v.(ssa.Instruction); ok && in.Block() != nil && li.body[in.Block()] {
		// len(x) of something invariant, computed in the loop: use the value of the dry run when stable
		if c, ok := v.(*ssa.Call); ok {
			if bi, ok := c.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" {
				a := c.Call.Args[0]
				if in2, ok := a.(ssa.Instruction); ok && in2.Block() != nil && li.body[in2.Block()] {
					return nil
				}
				if sv, ok := f.val(a, nil).(SliceV); ok {
					return sv.Len
				}
			}
		}
		return nil
	}
	var t *Term
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(unsupported); !ok {
					panic(r)
				}
			}
		}()
		if q, ok := f.val(v, nil).(*Term); ok && q.sort == sInt {
			t = q
		}
	}()
	return t
}

// ---- values

func (f *frame) val(v ssa.Value, st *State) Val {
	x := f.x
	switch c := v.(type) {
	case *ssa.Const:
		return x.constVal(c)
	case *ssa.Global:
		return AddrV{Ref: x.globalRef(c), Root: deref(c.Type()), T: deref(c.Type())}
	case *ssa.Function:
		return FuncV{Fn: c}
	case *ssa.Builtin:
		return FuncV{}
	}
	r, ok := f.env[v]
	if !ok {
		unsup("value %s (%s) of %s not available", v.Name(), v, f.fn.Name())
	}
	return r
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func (x *Ctx) globalRef(g *ssa.Global) *Term {
	if t, ok := x.globals[g]; ok {
		return t
	}
	t := mkInt(int64(len(x.globals) + 1))
	x.globals[g] = t
	x.fact(mkLt(t, x.alloc0))
	return t
}

func (x *Ctx) constVal(c *ssa.Const) Val {
	t := c.Type()
	if c.Value == nil {
		return x.zero(t)
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return mkBool(constant.BoolVal(c.Value))
		case u.Info()&types.IsString != 0:
			return x.strConst(constant.StringVal(c.Value))
		case u.Info()&types.IsInteger != 0:
			n := constBig(c.Value)
			return x.intConst(n, t)
		case u.Info()&types.IsFloat != 0:
			return mkVar("fconst_"+sanitize(c.Value.ExactString()), x.scalarSort(t))
		}
	case *types.TypeParam:
	}
	unsup("constant %s", c)
	return nil
}

func (x *Ctx) intConst(n *big.Int, t types.Type) *Term {
	if x.bv {
		w, _, _ := intInfo(t)
		return mkBV(n, w)
	}
	return mkBig(n)
}

func constBig(v constant.Value) *big.Int {
	v = constant.ToInt(v)
	n := new(big.Int)
	n.SetString(v.ExactString(), 10)
	return n
}
