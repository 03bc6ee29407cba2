package main

import (
	"bytes"
	"context"
	"fmt"
	"os"
	"os/exec"
	"sort"
	"strings"
	"sync"
	"time"
)

type Solver struct {
	sem     chan struct{}
	dump    string
	quickMS int
	mu      sync.Mutex
	time    map[string]float64
	calls   map[string]int
}

func newSolver(par int) *Solver {
	return &Solver{sem: make(chan struct{}, par), quickMS: 4000, time: map[string]float64{}, calls: map[string]int{}}
}

type verdict struct {
	res    string // unsat, sat, unknown
	solver string
	time   float64
	out    string
}

func (s *Solver) run(name, script string, sec float64, ctx context.Context) verdict {
	s.sem <- struct{}{}
	defer func() { <-s.sem }()
	if ctx.Err() != nil {
		return verdict{res: "unknown", solver: name}
	}
	var cmd *exec.Cmd
	ms := int(sec * 1000)
	c2, cancel := context.WithTimeout(ctx, time.Duration(ms+2000)*time.Millisecond)
	defer cancel()
	switch name {
	case "z3":
		cmd = exec.CommandContext(c2, "z3", "-smt2", "-in", fmt.Sprintf("-t:%d", ms), "-memory:3000")
	case "z3-new":
		cmd = exec.CommandContext(c2, "z3-new", "-smt2", "-in", fmt.Sprintf("-t:%d", ms), "-memory:3000")
	case "z3-nl":
		cmd = exec.CommandContext(c2, "z3-new", "-smt2", "-in", fmt.Sprintf("-t:%d", ms), "-memory:3000", "smt.arith.solver=2")
	case "z3-seed":
		cmd = exec.CommandContext(c2, "z3-new", "-smt2", "-in", fmt.Sprintf("-t:%d", ms), "-memory:3000", "smt.random_seed=7", "smt.qi.eager_threshold=30")
	case "cvc5":
		cmd = exec.CommandContext(c2, "cvc5", "--lang=smt2", fmt.Sprintf("--tlimit=%d", ms), "--arrays-exp", "-q", "--full-saturate-quant")
	case "cvc5-plain":
		cmd = exec.CommandContext(c2, "cvc5", "--lang=smt2", fmt.Sprintf("--tlimit=%d", ms), "-q")
	}
	cmd.Stdin = strings.NewReader(script)
	var out bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &out
	t0 := time.Now()
	cmd.Run()
	dt := time.Since(t0).Seconds()
	s.mu.Lock()
	s.time[name] += dt
	s.calls[name]++
	s.mu.Unlock()
	o := out.String()
	res := "unknown"
	for _, ln := range strings.Split(o, "\n") {
		ln = strings.TrimSpace(ln)
		if ln == "unsat" || ln == "sat" || ln == "unknown" {
			res = ln
			break
		}
		if strings.HasPrefix(ln, "(error") && os.Getenv("GOVC_ERR") != "" {
			fmt.Fprintln(os.Stderr, name, ln)
		}
	}
	return verdict{res, name, dt, o}
}

// prove tries the back ends on one goal.
func (s *Solver) prove(script string, sec float64, cover bool) verdict {
	bg := context.Background()
	first := 1.0
	if sec < first {
		first = sec
	}
	v := s.run("z3-new", script, first, bg)
	if v.res == "unsat" || v.res == "sat" && cover {
		return v
	}
	if cover {
		return v
	}
	firstSat := v.res == "sat"
	total := v.time
	ctx, cancel := context.WithCancel(bg)
	defer cancel()
	names := []string{"z3", "cvc5-plain", "cvc5", "z3-new", "z3-seed"}
	if firstSat {
		names = []string{"z3"}
		sec = 10
	}
	ch := make(chan verdict, len(names))
	for _, n := range names {
		n := n
		go func() { ch <- s.run(n, script, sec, ctx) }()
	}
	best := v
	for range names {
		r := <-ch
		if r.time > 0 {
			total += 0
		}
		if r.res == "unsat" {
			if firstSat {
				// disagreement between back ends: do not trust either
				r.res = "unknown"
				r.out += "\nback ends disagree"
				best = r
				continue
			}
			r.time += total
			return r
		}
		if r.res == "sat" && best.res != "sat" {
			best = r
		}
	}
	return best
}

// ---- scripts

func (x *Ctx) recBodies(used map[string]bool) (map[string]string, map[string]bool) {
	return nil, nil
}

type recDef struct {
	name   string
	params []*Term
	ret    string
	body   *Term
}

func (x *Ctx) specDef(f *SpecFn) recDef {
	if d, ok := x.recDefs[f.Name]; ok {
		return d
	}
	var ps []*Term
	env := &specEnv{x: x, st: x.oldState, old: x.oldState, vars: map[string]TV{}}
	if env.st == nil {
		env.st = &State{heaps: map[string]*Term{}, alloc: mkInt(1)}
		env.old = env.st
	}
	for _, p := range f.Params {
		b := mkBound(f.Name+"."+p.name, x.specSort(p.sort))
		ps = append(ps, b)
		env.vars[p.name] = TV{b, nil}
	}
	x.noFacts++
	ret := x.specSort(f.Ret)
	r := env.eval(f.Body)
	body := env.termLike(r, ret)
	x.noFacts--
	d := recDef{f.Name, ps, ret, body}
	x.recDefs[f.Name] = d
	return d
}

func (x *Ctx) script(facts []*Term, goal *Term, model bool) string {
	roots := append([]*Term{}, facts...)
	roots = append(roots, mkNot(goal))
	nlit := 0
	if len(x.strDef) > 0 {
		used := map[*Term]bool{}
		for _, t := range collect(roots) {
			used[t] = true
		}
		for _, d := range x.strDef {
			ok := false
			bad := false
			for _, t := range collect([]*Term{d}) {
				if t.op == "var" && t.sort == sStr {
					if used[t] {
						ok = true
					} else {
						bad = true
					}
				}
			}
			if ok && !bad {
				roots = append(roots, d)
				nlit++
			}
		}
	}
	// recursive definitions
	defs := map[string]recDef{}
	var order []string
	for changed := true; changed; {
		changed = false
		rs := append([]*Term{}, roots...)
		for _, n := range order {
			rs = append(rs, defs[n].body)
		}
		for _, t := range collect(rs) {
			if t.op == "app" && strings.HasPrefix(t.name, "spec_") {
				n := t.name[5:]
				f := x.w.specs.Fns[n]
				if f == nil || f.Body == nil || f.Opaque && !x.con.Reveal[f.Name] {
					continue
				}
				if _, ok := defs[n]; !ok {
					defs[n] = x.specDef(f)
					order = append(order, n)
					changed = true
				}
			}
		}
	}
	sort.Strings(order)
	all := append([]*Term{}, roots...)
	for _, n := range order {
		all = append(all, defs[n].body)
	}
	terms := collect(all)
	var sb strings.Builder
	if model {
		sb.WriteString("(set-option :produce-models true)\n")
	}
	sb.WriteString("(set-logic ALL)\n")
	sorts := map[string]bool{}
	var needSort func(s string)
	needSort = func(s string) {
		if strings.HasPrefix(s, "(Array ") {
			needSort(arrKeySort(s))
			needSort(arrElemSort(s))
			return
		}
		if strings.HasPrefix(s, "(") || s == sInt || s == sBool {
			return
		}
		if !sorts[s] {
			sorts[s] = true
			fmt.Fprintf(&sb, "(declare-sort %s 0)\n", s)
		}
	}
	decl := map[string]bool{}
	usePow := false
	for _, t := range terms {
		needSort(t.sort)
		for _, b := range t.bvs {
			needSort(b.sort)
		}
		switch t.op {
		case "var":
			if !decl[t.name] {
				decl[t.name] = true
				fmt.Fprintf(&sb, "(declare-fun %s () %s)\n", smtName(t.name), t.sort)
			}
		case "app":
			if strings.HasPrefix(t.name, "spec_") {
				if _, ok := defs[t.name[5:]]; ok {
					continue
				}
			}
			if t.name == "pow2" {
				usePow = true
			}
			if !decl[t.name] {
				decl[t.name] = true
				fmt.Fprintf(&sb, "(declare-fun %s (", smtName(t.name))
				for i, a := range t.args {
					if i > 0 {
						sb.WriteByte(' ')
					}
					sb.WriteString(a.sort)
				}
				fmt.Fprintf(&sb, ") %s)\n", t.sort)
			}
		}
	}
	if decl["slen"] && !x.bv {
		sb.WriteString("(assert (forall ((s Str)) (! (<= 0 (|slen| s)) :pattern ((|slen| s)))))\n")
	}
	if usePow {
		sb.WriteString("(assert (= (|pow2| 0) 1))\n(assert (forall ((k Int)) (! (=> (>= k 0) (and (>= (|pow2| k) 1) (= (|pow2| (+ k 1)) (* 2 (|pow2| k))))) :pattern ((|pow2| k)))))\n")
		for k := 1; k <= 64; k++ {
			fmt.Fprintf(&sb, "(assert (= (|pow2| %d) %s))\n", k, pow2(k))
		}
	}
	if len(order) > 0 {
		sb.WriteString("(define-funs-rec (")
		for _, n := range order {
			d := defs[n]
			fmt.Fprintf(&sb, "(%s (", smtName("spec_"+n))
			for _, p := range d.params {
				fmt.Fprintf(&sb, "(%s %s)", smtName(p.name), p.sort)
			}
			fmt.Fprintf(&sb, ") %s)", d.ret)
		}
		sb.WriteString(") (")
		for _, n := range order {
			printShared(&sb, defs[n].body)
			sb.WriteByte('\n')
		}
		sb.WriteString("))\n")
	}
	// shared closed subterms
	cnt := map[*Term]int{}
	for _, t := range collect(roots) {
		for _, a := range t.args {
			cnt[a]++
		}
		for _, p := range t.pats {
			for _, q := range p {
				cnt[q] += 1
			}
		}
	}
	names := map[*Term]string{}
	k := 0
	for _, t := range collect(roots) {
		if cnt[t] < 2 || t.hasB || len(t.args) == 0 {
			continue
		}
		k++
		n := fmt.Sprintf("$l!%d", k)
		fmt.Fprintf(&sb, "(define-fun %s () %s ", n, t.sort)
		printNode(&sb, t, names)
		sb.WriteString(")\n")
		names[t] = n
	}
	ng := len(facts)
	for i, r := range roots {
		if i == ng {
			continue
		}
		if r == tTrue {
			continue
		}
		sb.WriteString("(assert ")
		printTerm(&sb, r, names)
		sb.WriteString(")\n")
	}
	sb.WriteString("(assert ")
	printTerm(&sb, roots[ng], names)
	sb.WriteString(")\n(check-sat)\n")
	if model {
		sb.WriteString("(get-model)\n")
	}
	return sb.String()
}

func (x *Ctx) quick(goal *Term) bool { return x.quickAll([]*Term{goal})[0] }

func (x *Ctx) quickAll(goals []*Term) []bool {
	out := make([]bool, len(goals))
	facts := x.facts
	scripts := make([]string, len(goals))
	cones := make([]string, len(goals))
	for i, g := range goals {
		if g == tTrue {
			out[i] = true
			continue
		}
		cones[i] = x.coneScript(facts, g)
		scripts[i] = x.script(x.relevant(facts, g), g, false)
	}
	var wg sync.WaitGroup
	for i := range goals {
		if out[i] {
			continue
		}
		i := i
		wg.Add(1)
		go func() {
			defer wg.Done()
			if cones[i] != "" {
				if v := x.w.solve.run("z3-new", cones[i], 1, context.Background()); v.res == "unsat" {
					out[i] = true
					return
				}
			}
			v := x.w.solve.run("z3-new", scripts[i], float64(x.w.solve.quickMS)/1000, context.Background())
			if v.res == "unknown" {
				v = x.w.solve.run("z3", scripts[i], float64(x.w.solve.quickMS)/1000, context.Background())
			}
			out[i] = v.res == "unsat"
		}()
	}
	wg.Wait()
	return out
}

// relevant drops facts that share no symbol (transitively) with the goal.
func (x *Ctx) relevant(facts []*Term, goal *Term) []*Term {
	return facts
}

// printShared prints a term with bound variables, naming shared subterms with let.
func printShared(sb *strings.Builder, t *Term) {
	cnt := map[*Term]int{}
	ts := collect([]*Term{t})
	quant := false
	for _, u := range ts {
		if len(u.bvs) > 0 {
			quant = true
		}
		for _, a := range u.args {
			cnt[a]++
		}
	}
	if quant {
		printTerm(sb, t, nil)
		return
	}
	names := map[*Term]string{}
	k := 0
	for _, u := range ts {
		if cnt[u] < 2 || len(u.args) == 0 {
			continue
		}
		k++
		n := fmt.Sprintf("s!%d", k)
		fmt.Fprintf(sb, "(let ((%s ", n)
		printNode(sb, u, names)
		sb.WriteString(")) ")
		names[u] = n
	}
	printTerm(sb, t, names)
	sb.WriteString(strings.Repeat(")", k))
}
