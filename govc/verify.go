package main

import (
	"context"
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

type FuncResult struct {
	Name    string
	Kind    string // func, lemma
	Mode    string
	Error   string
	Obls    []*Obligation
	Assume  []string
	Inlined []string
	Called  []string
	Trusted bool
	Props   []string
	Where   string
	Loops   int
	ctx     *Ctx
}

func (w *World) newCtx(con *Contract, fn *ssa.Function) *Ctx {
	x := &Ctx{w: w, con: con, fn: fn, bv: con.Mode == "bv",
		factSet: map[*Term]bool{}, heap0: map[string]*Term{}, heapSort: map[string]string{}, tags: map[string]int{},
		boxOf: map[*Term]IfaceV{}, funcOf: map[*Term]FuncV{}, interior: map[*Term]AddrV{}, strs: map[string]*Term{},
		assume: map[string]bool{}, inlined: map[string]bool{}, called: map[string]bool{}, globals: map[*ssa.Global]*Term{},
		extRefs: map[string]*Term{}, candDrop: map[string]bool{}, usedFns: map[string]bool{}, usedLemmas: map[string]bool{}, recDefs: map[string]recDef{}}
	x.alloc0 = allocVar
	distinctPairs = map[[2]*Term]bool{}
	oldRefs = map[*Term]bool{}
	x.fact(mkLt(mkInt(0), x.alloc0))
	x.fact(mkEq(mkApp("typ", sInt, nilAny), mkInt(0)))
	return x
}

func (w *World) verify(con *Contract) (res *FuncResult) {
	res = &FuncResult{Name: con.Key, Kind: "func", Mode: con.Mode, Props: con.Props, Where: con.Where, Trusted: con.Trusted}
	if con.Trusted {
		return
	}
	fn := w.fns[con.Key]
	if fn == nil {
		res.Error = "no such function in the current source"
		return
	}
	if fn.Blocks == nil {
		res.Error = "function has no body"
		return
	}
	x := w.newCtx(con, fn)
	res.ctx = x
	defer func() {
		if r := recover(); r != nil {
			u, ok := r.(unsupported)
			if !ok {
				if os.Getenv("GOVC_PANIC") != "" {
					panic(r)
				}
				u = unsupported{fmt.Sprintf("internal: %v", r)}
			}
			res.Error = u.msg
			res.Obls = nil
		}
		res.Assume = sortedKeys(x.assume)
		res.Inlined = sortedKeys(x.inlined)
		res.Called = sortedKeys(x.called)
	}()
	st := &State{heaps: map[string]*Term{}, alloc: x.alloc0}
	x.oldState = st
	f := newFrame(x, fn)
	f.con = con
	f.top = true
	x.curFrame = f
	x.stack = []*ssa.Function{fn}
	var args []Val
	for i, p := range fn.Params {
		v := x.freshVal("p_"+p.Name(), p.Type(), st)
		f.env[p] = v
		f.params[p.Name()] = v
		args = append(args, v)
		if i == 0 && fn.Signature.Recv() != nil && !con.Nilrecv {
			if a, ok := v.(AddrV); ok {
				x.fact(mkLt(mkInt(0), a.Ref))
				noteDistinct(a.Ref, mkInt(0))
			}
		}
		func() {
			defer func() { recover() }()
			for i, l := range x.leaves(p.Type()) {
				ts := x.toLeaves(v, p.Type())
				isRef := l.kind == "arr"
				if l.t != nil {
					switch l.t.Underlying().(type) {
					case *types.Pointer, *types.Map, *types.Chan:
						isRef = true
					}
				}
				if isRef && ts[i].op == "var" {
					oldRefs[ts[i]] = true
				}
			}
		}()
	}
	for _, fv := range fn.FreeVars {
		f.env[fv] = x.freshVal("fv_"+fv.Name(), fv.Type(), st)
		if a, ok := f.env[fv].(AddrV); ok {
			x.fact(mkLt(mkInt(0), a.Ref))
		}
	}
	env := x.contractEnv(con, fn, fn.Signature, args, st, st, nil)
	for _, fv := range fn.FreeVars { // captured variables by name
		v := f.env[fv]
		if a, ok := v.(AddrV); ok {
			env.vars[fv.Name()] = TV{x.load(st, a), a.T}
		}
	}
	for _, c := range con.Requires {
		t := x.evalClause(c, env)
		for _, q := range conj(t) {
			if q.op == "not" && q.args[0].op == "=" && q.args[0].args[0].sort == sInt {
				noteDistinct(q.args[0].args[0], q.args[0].args[1])
			}
		}
		x.fact(t)
	}
	for _, c := range con.Use {
		x.useLemma(c, env, tTrue)
	}
	for _, c := range con.Split {
		x.splits = append(x.splits, x.evalClause(c, env))
	}
	old := st.clone()
	f.old = old
	x.oldState = old
	nreq := len(x.facts)
	f.run(st.clone(), tTrue)
	f.finishThrows()
	for n := range con.Loops {
		if n >= len(f.loops) {
			res.Error = fmt.Sprintf("loop %d has a specification but the function has %d loops", n, len(f.loops))
		}
	}
	var reach []*Term
	for i, e := range f.returns {
		reach = append(reach, e.pc)
		// heaps first touched in other branches keep their entry value
		var rv Val
		switch n := fn.Signature.Results().Len(); n {
		case 0:
		case 1:
			rv = e.vals[0]
		default:
			rv = TupleV(e.vals)
		}
		mk := func() *specEnv {
			env := x.contractEnv(con, fn, fn.Signature, args, e.st, old, nil)
			x.bindResults(env, fn, fn.Signature, rv)
			return env
		}
		ev := mk()
		pos := fn.Pos()
		end := x.factScope()
		exitStep := func(k int) {
			for _, s := range con.ExitSteps {
				if s.After >= len(con.Ensures) {
					s.After = 0 // written after them all: holds for all
				}
				if e.blk == nil || s.After != k {
					continue
				}
				e2 := mk()
				e2.locals = f.localsIn(e.blk, nil, nil)
				e2.f = f
				if s.Assert {
					g := x.evalClause(s.C, e2)
					x.obligeClause("assert", fmt.Sprintf("%s (exit %d)", s.C.Text, i+1), s.C.Line, pos, e.pc, g)
					x.fact(mkImp(e.pc, g))
				} else {
					x.useLemma(s.C, e2, e.pc)
				}
			}
		}
		for k, c := range con.Ensures {
			exitStep(k)
			g := x.evalClause(c, ev)
			x.obligeClause("ensures", fmt.Sprintf("%s (exit %d)", c.Text, i+1), c.Line, pos, e.pc, g)
		}
		if len(con.Ensures) == 0 {
			exitStep(0)
		}
		for _, c := range con.ThrowsIf {
			g := x.evalClause(c, x.contractEnv(con, fn, fn.Signature, args, old, old, nil))
			x.obligeClause("throws", fmt.Sprintf("throws when %s (exit %d)", c.Text, i+1), c.Line, pos, e.pc, mkNot(g))
		}
		x.frameObl(con, fn, args, old, e.st, e.pc, fmt.Sprintf("exit %d", i+1))
		end()
	}
	for i, e := range f.throws {
		pos := fn.Pos()
		if !con.Throws {
			x.oblige("throws", fmt.Sprintf("does not end by throwing (throw %d)", i+1), pos, tTrue, mkNot(e.pc))
			continue
		}
		if len(con.ThrowsIf) > 0 {
			var cs []*Term
			for _, c := range con.ThrowsIf {
				cs = append(cs, x.evalClause(c, x.contractEnv(con, fn, fn.Signature, args, old, old, nil)))
			}
			x.obligeClause("throws", fmt.Sprintf("throws only when allowed (throw %d)", i+1), con.Where, pos, e.pc, mkOr(cs...))
		}
		ev := x.contractEnv(con, fn, fn.Signature, args, e.st, old, nil)
		for _, c := range con.OnThrow {
			x.obligeClause("onthrow", fmt.Sprintf("%s (throw %d)", c.Text, i+1), c.Line, pos, e.pc, x.evalClause(c, ev))
		}
		x.frameObl(con, fn, args, old, e.st, e.pc, fmt.Sprintf("throw %d", i+1))
	}
	// vacuity: the precondition and some exit must be reachable
	cv := &Obligation{Func: fn.String(), Kind: "cover", Desc: "the precondition is satisfiable", Goal: tFalse, Facts: x.facts[:nreq:nreq], ctx: x, Cover: true}
	x.obls = append(x.obls, cv)
	if len(reach) > 0 {
		x.obls = append(x.obls, &Obligation{Func: fn.String(), Kind: "cover", Desc: "some normal exit is reachable", Goal: mkNot(mkOr(reach...)), Facts: x.facts[:len(x.facts):len(x.facts)], ctx: x, Cover: true})
	} else if !con.Throws {
		res.Error = "no normal exit"
	}
	res.Obls = x.obls
	res.Loops = len(f.loops)
	return
}

func (x *Ctx) frameObl(con *Contract, fn *ssa.Function, args []Val, old, cur *State, pc *Term, what string) {
	if con.ModAll {
		return
	}
	env := x.contractEnv(con, fn, fn.Signature, args, old, old, nil)
	var locs []loc
	for _, m := range con.Modifies {
		locs = append(locs, x.evalModifies(m, env)...)
	}
	for _, k := range sortedKeysT(cur.heaps) {
		h := cur.heaps[k]
		o, ok := old.heaps[k]
		if !ok {
			o = x.heap0[k]
		}
		if h == o {
			continue
		}
		whole := false
		var refs []*Term
		exp := &State{heaps: map[string]*Term{k: o}, alloc: cur.alloc}
		for _, l := range locs {
			if l.key != k {
				continue
			}
			if l.addr != nil {
				v := x.loadLeaf(cur, *l.addr, l.path, l.lsrt)
				x.storeLeaf(exp, *l.addr, l.path, l.lsrt, v)
				continue
			}
			if l.ref == nil {
				whole = true
				break
			}
			refs = append(refs, l.ref)
		}
		if whole {
			continue
		}
		o = exp.heaps[k]
		r := fresh("fr", sInt)
		g := []*Term{mkLt(mkInt(0), r), mkLt(r, x.alloc0)}
		for _, t := range refs {
			g = append(g, mkNot(mkEq(r, t)))
		}
		a, b := mkSelect(h, r), mkSelect(o, r)
		for strings.HasPrefix(a.sort, "(Array ") {
			i := fresh("fi", arrKeySort(a.sort))
			a, b = mkSelect(a, i), mkSelect(b, i)
		}
		x.oblige("frame", "changes only what modifies allows: "+k+" ("+what+")", fn.Pos(), mkAnd(append([]*Term{pc}, g...)...), mkEq(a, b))
	}
}

func sortedKeysT(m map[string]*Term) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// ---- lemmas

func (w *World) proveLemma(l *Lemma) (res *FuncResult) {
	res = &FuncResult{Name: "lemma " + l.Name, Kind: "lemma", Props: l.Props, Where: l.Where}
	con := &Contract{Key: "lemma " + l.Name, Mode: l.Mode, Reveal: l.Reveal, Loops: map[int]*LoopSpec{}}
	x := w.newCtx(con, nil)
	res.ctx = x
	defer func() {
		if r := recover(); r != nil {
			u, ok := r.(unsupported)
			if !ok {
				if os.Getenv("GOVC_PANIC") != "" {
					panic(r)
				}
				u = unsupported{fmt.Sprint(r)}
			}
			res.Error = u.msg
		}
		res.Assume = sortedKeys(x.assume)
		res.Called = sortedKeys(x.called)
	}()
	st := &State{heaps: map[string]*Term{}, alloc: x.alloc0}
	x.oldState = st
	env := &specEnv{x: x, st: st, old: st, vars: map[string]TV{}}
	for _, p := range l.Params {
		env.vars[p.name] = TV{fresh("l_"+p.name, x.specSort(p.sort)), nil}
	}
	for _, c := range l.Req {
		x.fact(x.evalClause(c, env))
	}
	nreq := len(x.facts)
	inst := func(e *specEnv) *Term {
		var hs, cs []*Term
		for _, r := range l.Req {
			hs = append(hs, x.evalClause(r, e))
		}
		for _, r := range l.Ens {
			cs = append(cs, x.evalClause(r, e))
		}
		return mkImp(mkAnd(hs...), mkAnd(cs...))
	}
	selfUse := false
	for _, c := range l.Use {
		if call, ok := c.E.(*ast.CallExpr); ok {
			if id, ok := call.Fun.(*ast.Ident); ok && id.Name == l.Name {
				selfUse = true
			}
		}
	}
	if l.Induct != "" && !selfUse {
		from := mkInt(0)
		if l.From != "" {
			from = env.term(env.eval(mkClause(l.From, l.Where).E))
		}
		n := env.vars[l.Induct].V.(*Term)
		e2 := env.with(l.Induct, TV{mkSub(n, mkInt(1)), nil})
		x.fact(mkImp(mkLt(from, n), inst(e2)))
	}
	for _, c := range l.Use {
		call := c.E.(*ast.CallExpr)
		if id := call.Fun.(*ast.Ident).Name; id == l.Name {
			// recursive use: the induction variable must decrease
			e2 := *env
			e2.vars = map[string]TV{}
			for i, p := range l.Params {
				e2.vars[p.name] = TV{env.termLike(env.eval(call.Args[i]), x.specSort(p.sort)), nil}
			}
			n := env.vars[l.Induct].V.(*Term)
			m := e2.vars[l.Induct].V.(*Term)
			if isBV(n.sort) {
				x.fact(mkImp(x.ltI(m, n, false), inst(&e2)))
			} else {
				x.fact(mkImp(mkAnd(mkLe(mkInt(0), m), mkLt(m, n)), inst(&e2)))
			}
			continue
		}
		x.useLemma(c, env, tTrue)
	}
	for _, c := range l.Ens {
		g := x.evalClause(c, env)
		o := &Obligation{Func: "lemma " + l.Name, Kind: "lemma", Desc: c.Text, Pos: c.Line, Goal: g, Facts: x.facts[:len(x.facts):len(x.facts)], ctx: x, Clause: c.Text}
		x.obls = append(x.obls, o)
	}
	x.obls = append(x.obls, &Obligation{Func: "lemma " + l.Name, Kind: "cover", Desc: "hypotheses satisfiable", Goal: tFalse, Facts: x.facts[:nreq:nreq], ctx: x, Cover: true})
	res.Obls = x.obls
	return
}

// splitGoal: one goal per path when the path condition is a choice of many
func splitGoal(g *Term) []*Term {
	if g.op == "and" {
		return g.args
	}
	if g.op != "=>" {
		return nil
	}
	if g.args[1].op == "and" {
		var out []*Term
		for _, c := range g.args[1].args {
			out = append(out, mkImp(g.args[0], c))
		}
		return out
	}
	cs := conj(g.args[0])
	best := -1
	for i, c := range cs {
		if c.op == "or" && len(c.args) >= 3 && (best < 0 || len(c.args) > len(cs[best].args)) {
			best = i
		}
	}
	if best < 0 {
		return nil
	}
	var rest []*Term
	for i, c := range cs {
		if i != best {
			rest = append(rest, c)
		}
	}
	var out []*Term
	for _, d := range cs[best].args {
		out = append(out, mkImp(mkAnd(append([]*Term{d}, rest...)...), g.args[1]))
	}
	return out
}

// cases: the goal in each of the cases the contract asks to distinguish
func (x *Ctx) cases(g *Term) []*Term {
	out := []*Term{g}
	for _, s := range x.splits {
		var next []*Term
		for _, o := range out {
			pc, b := tTrue, o
			if o.op == "=>" {
				pc, b = o.args[0], o.args[1]
			}
			next = append(next, mkImp(mkAnd(s, pc), b), mkImp(mkAnd(mkNot(s), pc), b))
		}
		out = next
	}
	return out
}

// pathScript: the query for goal "pc implies g", with everything simplified
// under the atoms of pc (which the negated goal asserts verbatim).
func (x *Ctx) pathScript(facts []*Term, goal *Term) string {
	fs, g := x.pathFacts(facts, goal)
	return x.script(fs, g, false)
}

// coneScript: like pathScript, with only the facts about symbols the goal depends
// on ("" if that is nearly all of them).  Leaving facts out is always sound.
func (x *Ctx) coneScript(facts []*Term, goal *Term) string {
	fs, g := x.pathFacts(facts, goal)
	cs := x.cone(fs, g)
	if len(cs)*10 > len(fs)*9 {
		return ""
	}
	return x.script(cs, g, false)
}

func varIndex(t *Term) int {
	k := strings.LastIndexByte(t.name, '!')
	if k < 0 {
		return 0
	}
	n := 0
	for _, c := range t.name[k+1:] {
		if c < '0' || c > '9' {
			return 0
		}
		n = 10*n + int(c-'0')
	}
	return n
}

func (x *Ctx) termVars(t *Term) []*Term {
	if x.varsOf == nil {
		x.varsOf = map[*Term][]*Term{}
	}
	if vs, ok := x.varsOf[t]; ok {
		return vs
	}
	var vs []*Term
	for _, u := range collect([]*Term{t}) {
		if u.op == "var" {
			vs = append(vs, u)
		}
	}
	x.varsOf[t] = vs
	return vs
}

// cone keeps the facts whose newest symbol the goal depends on.
func (x *Ctx) cone(facts []*Term, goal *Term) []*Term {
	need := map[*Term]bool{}
	for _, v := range x.termVars(goal) {
		need[v] = true
	}
	in := make([]bool, len(facts))
	newest := make([]*Term, len(facts))
	for i, f := range facts {
		best := 0
		for _, v := range x.termVars(f) {
			if k := varIndex(v); k > best {
				best = k
				newest[i] = v
			}
		}
	}
	for changed := true; changed; {
		changed = false
		for i := len(facts) - 1; i >= 0; i-- {
			if in[i] || newest[i] != nil && !need[newest[i]] {
				continue
			}
			in[i] = true
			for _, v := range x.termVars(facts[i]) {
				if !need[v] {
					need[v] = true
					changed = true
				}
			}
		}
	}
	var out []*Term
	for i, f := range facts {
		if in[i] {
			out = append(out, f)
		}
	}
	return out
}

func (x *Ctx) pathFacts(facts []*Term, goal *Term) ([]*Term, *Term) {
	if goal.op != "=>" {
		return facts, goal
	}
	m := map[*Term]*Term{}
	for _, c := range conj(goal.args[0]) {
		if c == tTrue || c == tFalse {
			continue
		}
		if c.op == "not" {
			m[c.args[0]] = tFalse
		} else {
			m[c] = tTrue
		}
	}
	memo := map[*Term]*Term{}
	g := mkImp(goal.args[0], subst(goal.args[1], m, memo))
	if subst(goal.args[1], m, memo) == tTrue {
		g = tTrue
	}
	var fs []*Term
	seen := map[*Term]bool{}
	for _, f := range facts {
		h := subst(f, m, memo)
		if h == tTrue || seen[h] {
			continue
		}
		seen[h] = true
		fs = append(fs, h)
	}
	return fs, g
}

var termMu sync.Mutex

// proveGoal proves a goal, part by part when the whole does not go through.
func (w *World) proveGoal(x *Ctx, facts []*Term, goal *Term, script string, sec float64, depth int) (verdict, string) {
	termMu.Lock()
	parts := splitGoal(goal)
	if script == "" && goal != tTrue {
		script = x.pathScript(facts, goal)
	}
	termMu.Unlock()
	if goal == tTrue {
		return verdict{res: "unsat", solver: "simplifier"}, script
	}
	termMu.Lock()
	cone := x.coneScript(facts, goal)
	termMu.Unlock()
	if cone != "" {
		if v := w.solve.run("z3-new", cone, 1.5, context.Background()); v.res == "unsat" {
			return v, script
		}
	}
	if len(parts) < 2 || depth > 3 {
		return w.solve.prove(script, sec, false), script
	}
	v := w.solve.run("z3-new", script, 1, context.Background())
	if v.res == "unsat" {
		return v, script
	}
	tot, by := v.time, map[string]bool{}
	for _, p := range parts {
		pv, ps := w.proveGoal(x, facts, p, "", sec, depth+1)
		tot += pv.time
		by[pv.solver] = true
		if pv.res != "unsat" {
			pv.time = tot
			return pv, ps
		}
	}
	return verdict{res: "unsat", solver: strings.Join(sortedKeys(by), "+"), time: tot}, script
}

// ---- discharge

func (w *World) discharge(rs []*FuncResult) {
	var wg sync.WaitGroup
	lim := make(chan struct{}, 8)
	var bad int32
	for _, r := range rs {
		for _, o := range r.Obls {
			o := o
			if o.Goal == tTrue {
				o.Status, o.Solver = "proved", "simplifier"
				continue
			}
			x := o.ctx
			sec := float64(w.timeout)
			if x.con.Timeout > 0 {
				sec = float64(x.con.Timeout)
			}
			script := ""
			if o.Cover {
				termMu.Lock()
				script = x.script(o.Facts, o.Goal, false)
				termMu.Unlock()
			} else {
				termMu.Lock()
				script = x.pathScript(o.Facts, o.Goal)
				termMu.Unlock()
			}
			wg.Add(1)
			lim <- struct{}{}
			go func() {
				defer wg.Done()
				defer func() { <-lim }()
				if o.Cover {
					v := w.solve.prove(script, 3, true)
					o.Time, o.Solver = v.time, v.solver
					if v.res == "unsat" {
						o.Status = "vacuous"
						if w.debug {
							os.WriteFile("/tmp/govc/vacuous.smt2", []byte(script), 0o644)
						}
					} else {
						o.Status = "covered"
						if v.res == "sat" {
							o.Solver += " (sat)"
						} else {
							o.Solver += " (not refuted)"
						}
					}
					return
				}
				if atomic.LoadInt32(&bad) >= maxBad {
					o.Status, o.Solver = "unknown", "not attempted"
					return
				}
				w.attempt(x, o, script, sec)
				if o.Status != "proved" {
					atomic.AddInt32(&bad, 1)
				}
			}()
		}
	}
	wg.Wait()
	// A few that did not go through get a second chance, one at a time and with
	// more time: the machine may have been busy. The first that fails again decides.
	if n := atomic.LoadInt32(&bad); n == 0 || n > maxBad {
		return
	}
	var again []*Obligation
	for _, r := range rs {
		for _, o := range r.Obls {
			if o.Cover || o.Goal == tTrue {
				continue
			}
			if o.Status == "failed" {
				return
			}
			if o.Status == "unknown" {
				again = append(again, o)
			}
		}
	}
	began := time.Now()
	for _, o := range again {
		if time.Since(began) > 200*time.Second {
			return
		}
		x := o.ctx
		termMu.Lock()
		script := x.pathScript(o.Facts, o.Goal)
		termMu.Unlock()
		w.attempt(x, o, script, 3*float64(w.timeout))
		if o.Status != "proved" {
			return
		}
	}
}

const maxBad = 10

// attempt tries to prove one obligation.
func (w *World) attempt(x *Ctx, o *Obligation, script string, sec float64) {
	var v verdict
	termMu.Lock()
	cases := x.cases(o.Goal)
	termMu.Unlock()
	by, tot := map[string]bool{}, 0.0
	for _, g := range cases {
		sc := script
		if len(cases) > 1 {
			sc = ""
		}
		v, sc = w.proveGoal(x, o.Facts, g, sc, sec, 0)
		tot += v.time
		by[v.solver] = true
		if v.res != "unsat" {
			script = sc
			break
		}
	}
	if v.res == "unsat" {
		v.time, v.solver = tot, strings.Join(sortedKeys(by), "+")
	}
	o.Time, o.Solver = v.time, v.solver
	if w.debug && v.time > 1 {
		fmt.Fprintf(os.Stderr, "slow %.1fs %s %s [%s] %s %s (%s)\n", v.time, v.res, shortName(o.Func), o.Kind, o.Desc, o.Pos, v.solver)
	}
	switch v.res {
	case "unsat":
		o.Status = "proved"
	case "sat":
		o.Status = "failed"
	default:
		o.Status = "unknown"
	}
	if o.Status != "proved" {
		if w.debug {
			os.MkdirAll("/tmp/govc", 0o755)
			nm := fmt.Sprintf("/tmp/govc/%s_%s_%p.smt2", sanitize(o.Func), sanitize(o.Kind), o)
			os.WriteFile(nm, []byte(script), 0o644)
			o.Model = nm
		}
	}
}

var _ = types.Typ
var _ = token.NoPos
