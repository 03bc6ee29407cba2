package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"regexp"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

type jsonObl struct {
	ID     string  `json:"id"`
	Kind   string  `json:"kind"`
	Desc   string  `json:"desc"`
	Pos    string  `json:"pos"`
	Clause string  `json:"clause,omitempty"`
	Status string  `json:"status"`
	Solver string  `json:"solver"`
	Time   float64 `json:"time"`
}
type jsonFn struct {
	Name    string         `json:"name"`
	Kind    string         `json:"kind"`
	Mode    string         `json:"mode"`
	Where   string         `json:"where"`
	Trusted bool           `json:"trusted,omitempty"`
	Error   string         `json:"error,omitempty"`
	Proved  int            `json:"proved"`
	Total   int            `json:"total"`
	Loops   int            `json:"loops"`
	Assume  []string       `json:"assumptions,omitempty"`
	Inlined []string       `json:"inlined,omitempty"`
	Called  []string       `json:"called,omitempty"`
	Failed  []jsonObl      `json:"failed,omitempty"`
	Kinds   map[string]int `json:"kinds,omitempty"`
}
type jsonOut struct {
	Prop      string         `json:"property"`
	Functions []jsonFn       `json:"functions"`
	Obls      int            `json:"obligations"`
	Proved    int            `json:"discharged"`
	BySolver  map[string]int `json:"by_solver"`
	Seconds   float64        `json:"solver_seconds"`
	Wall      float64        `json:"wall_seconds"`
	Covers    int            `json:"covers"`
	Failed    int            `json:"failed"`
	Trusted   []string       `json:"trusted"`
	Assume    []string       `json:"assumptions"`
	Sample    []jsonObl      `json:"sample,omitempty"`
}

func main() {
	repo := flag.String("repo", "/repo", "repository")
	specs := flag.String("specs", "/verif/contracts", "contract directory")
	prop := flag.String("prop", "", "only contracts of this property")
	fnre := flag.String("fn", "", "only functions matching")
	out := flag.String("json", "", "write results here")
	verbose := flag.Bool("v", false, "print every obligation")
	debug := flag.Bool("debug", false, "keep scripts of failed obligations in /tmp/govc")
	timeout := flag.Int("t", 20, "seconds per obligation")
	dump := flag.String("ssa", "", "print the SSA of functions matching")
	par := flag.Int("j", 8, "parallel solvers")
	list := flag.Bool("list", false, "list functions")
	flag.Parse()
	t0 := time.Now()
	w, err := load(*repo)
	if err != nil {
		fmt.Fprintln(os.Stderr, "govc: load:", err)
		os.Exit(3)
	}
	w.debug = *debug
	w.timeout = *timeout
	w.solve = newSolver(*par)
	if *dump != "" {
		re := regexp.MustCompile(*dump)
		for _, n := range sortedFns(w.fns) {
			if w.inRepo(w.fns[n]) && re.MatchString(n) {
				w.fns[n].WriteTo(os.Stdout)
				for _, an := range w.fns[n].AnonFuncs {
					an.WriteTo(os.Stdout)
				}
			}
		}
		return
	}
	if *list {
		for _, n := range sortedFns(w.fns) {
			if w.inRepo(w.fns[n]) {
				fmt.Println(n)
			}
		}
		return
	}
	w.specs = parseSpecs(*specs)
	initModels()
	w.specs.checkLemmaOrder()
	var re *regexp.Regexp
	if *fnre != "" {
		re = regexp.MustCompile(*fnre)
	}
	has := func(ps []string) bool {
		if *prop == "" {
			return true
		}
		for _, p := range ps {
			if p == *prop {
				return true
			}
		}
		return false
	}
	var rs []*FuncResult
	var jobs []func() *FuncResult
	want := map[string]bool{}
	for _, k := range w.specs.Order {
		c := w.specs.Contracts[k]
		if c.Trusted || c.Inline || !has(c.Props) || re != nil && !re.MatchString(k) {
			continue
		}
		want[k] = true
		jobs = append(jobs, func() *FuncResult { return w.verify(c) })
	}
	lemWant := map[string]bool{}
	for _, k := range w.specs.LemOrder {
		l := w.specs.Lemmas[k]
		if l.Axiom || re != nil && !re.MatchString("lemma "+k) || *prop != "" && !has(l.Props) {
			continue
		}
		lemWant[k] = true
		jobs = append(jobs, func() *FuncResult { return w.proveLemma(l) })
	}
	run := func(js []func() *FuncResult) {
		base := len(rs)
		rs = append(rs, make([]*FuncResult, len(js))...)
		var wg sync.WaitGroup
		// VC generation shares the term table: one at a time
		for i, j := range js {
			rs[base+i] = j()
		}
		wg.Wait()
	}
	run(jobs)
	// lemmas and non-trusted contracts used but belonging to other properties are
	// pulled in, so that a property's check stands on its own.
	if re == nil {
		for {
			var more []func() *FuncResult
			for _, r := range rs {
				if r.ctx == nil {
					continue
				}
				for _, n := range sortedKeys(r.ctx.usedLemmas) {
					l := w.specs.Lemmas[n]
					if l != nil && !l.Axiom && !lemWant[n] {
						lemWant[n] = true
						more = append(more, func() *FuncResult { return w.proveLemma(l) })
					}
				}
				for _, n := range sortedKeys(r.ctx.called) {
					if strings.HasPrefix(n, "contract: ") {
						for k, c := range w.specs.Contracts {
							c := c
							if shortName(k) == n[10:] && !c.Trusted && !want[k] {
								want[k] = true
								more = append(more, func() *FuncResult { return w.verify(c) })
							}
						}
					}
				}
			}
			if len(more) == 0 {
				break
			}
			run(more)
		}
	}
	gen := time.Since(t0).Seconds()
	w.discharge(rs)
	// report
	jo := jsonOut{Prop: *prop, BySolver: map[string]int{}}
	asm := map[string]bool{}
	tr := map[string]bool{}
	bad := 0
	for _, r := range rs {
		jf := jsonFn{Name: shortName(r.Name), Kind: r.Kind, Mode: r.Mode, Where: r.Where, Error: r.Error, Assume: r.Assume, Inlined: r.Inlined, Called: r.Called, Loops: r.Loops, Kinds: map[string]int{}}
		for _, a := range r.Assume {
			asm[a] = true
		}
		for _, a := range r.Called {
			if strings.HasPrefix(a, "trusted: ") || strings.HasPrefix(a, "model: ") {
				tr[a] = true
			}
		}
		seq := map[string]int{}
		for _, o := range r.Obls {
			id := fmt.Sprintf("%s#%s#%s", shortName(o.Func), o.Kind, o.Desc)
			seq[id]++
			if seq[id] > 1 {
				id += fmt.Sprintf("~%d", seq[id])
			}
			j := jsonObl{id, o.Kind, o.Desc, o.Pos, o.Clause, o.Status, o.Solver, o.Time}
			ok := o.Status == "proved" || o.Status == "covered"
			if o.Cover {
				jo.Covers++
			} else {
				jf.Total++
				jf.Kinds[o.Kind]++
				jo.Obls++
				if ok {
					jf.Proved++
					jo.Proved++
					jo.BySolver[o.Solver]++
				}
			}
			if !ok {
				jf.Failed = append(jf.Failed, j)
				bad++
				fmt.Printf("FAILED %s [%s] %s %s (%s %.1fs) %s\n", shortName(o.Func), o.Kind, o.Desc, o.Pos, o.Status, o.Time, o.Model)
			} else if *verbose {
				fmt.Printf("ok     %s [%s] %s %s (%s %.2fs)\n", shortName(o.Func), o.Kind, o.Desc, o.Pos, o.Solver, o.Time)
			}
		}
		if r.Error != "" {
			bad++
			fmt.Printf("ERROR  %s: %s\n", shortName(r.Name), r.Error)
		} else {
			fmt.Printf("%-70s %d/%d\n", shortName(r.Name), jf.Proved, jf.Total)
		}
		jo.Functions = append(jo.Functions, jf)
	}
	jo.Assume = sortedKeys(asm)
	jo.Trusted = sortedKeys(tr)
	for _, t := range w.solve.time {
		jo.Seconds += t
	}
	jo.Wall = time.Since(t0).Seconds()
	jo.Failed = bad
	fmt.Printf("obligations %d discharged %d failed %d gen %.1fs wall %.1fs\n", jo.Obls, jo.Proved, bad, gen, jo.Wall)
	if *out != "" {
		b, _ := json.MarshalIndent(jo, "", " ")
		os.WriteFile(*out, b, 0o644)
	}
	if bad > 0 {
		os.Exit(1)
	}
}

var _ = sort.Strings
var _ ssa.Value
