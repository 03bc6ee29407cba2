// Package main: replay and bounded stand-in driver. Built inside the module under
// test (go build -overlay), it exercises the real code through its public API and
// compares with independent encoders and decoders.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"path/filepath"
	"runtime/debug"
	"strings"
	"time"
)

// Run collects what one driver run covered and what failed.
type Run struct {
	prop     string
	tier     string
	seed     int64
	dir      string // scratch directory
	out      string // replay directory
	rng      *rand.Rand
	deadline time.Time
	evals    int
	distinct map[uint64]bool
	samples  []string
	fails    []Failure
	failKeys map[string]int
	parts    map[string]int
	notes    []string
	cur      string
	curf     *os.File
}

// Failure is one concrete failing input; Key names the kind of failure.
type Failure struct {
	Key    string `json:"key"`
	What   string `json:"what"`
	Replay string `json:"replay"`
}

func (r *Run) thorough() bool { return r.tier == "thorough" }
func (r *Run) n(quick, thorough int) int {
	if r.thorough() {
		return thorough
	}
	if quick *= 3; quick > thorough {
		quick = thorough
	}
	return quick
}
func (r *Run) expired() bool { return time.Now().After(r.deadline) }

// Case counts one evaluation; id identifies the case for distinctness.
func (r *Run) Case(part, id string) {
	r.evals++
	r.parts[part]++
	if r.curf != nil {
		// so that a crash of the whole process can be attributed
		b := make([]byte, 16384)
		copy(b, part+": "+id+"\n")
		r.curf.WriteAt(b, 0)
	}
	h := fnv.New64a()
	h.Write([]byte(id))
	r.distinct[h.Sum64()] = true
	if len(r.samples) < 6 && r.parts[part] == 1 {
		if len(id) > 300 {
			id = id[:300] + "..."
		}
		r.samples = append(r.samples, part+": "+id)
	}
}

// Fail records a failing input. data (may be nil) is the file that fails.
func (r *Run) Fail(key, what string, data []byte) {
	r.failKeys[key]++
	if r.failKeys[key] > 3 {
		return
	}
	os.MkdirAll(r.out, 0o755)
	base := filepath.Join(r.out, fmt.Sprintf("%s-%s-%d", r.prop, sanitize(key), r.failKeys[key]))
	txt := fmt.Sprintf("property: %s\nkey: %s\nseed: %d\ntier: %s\nwhat failed: %s\n", r.prop, key, r.seed, r.tier, what)
	if data != nil {
		os.WriteFile(base+".bin", data, 0o644)
		txt += "input file: " + base + ".bin\n"
	}
	os.WriteFile(base+".txt", []byte(txt), 0o644)
	r.fails = append(r.fails, Failure{key, what, base + ".txt"})
}

func sanitize(s string) string {
	return strings.Map(func(c rune) rune {
		if c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '-' {
			return c
		}
		return '_'
	}, s)
}

// protect runs f and turns a panic into an error.
func protect(f func() error) (err error) {
	defer func() {
		if p := recover(); p != nil {
			st := strings.Split(string(debug.Stack()), "\n")
			loc := ""
			for _, l := range st {
				if strings.Contains(l, "/netcdf/") || strings.Contains(l, "/repo/") {
					if !strings.Contains(l, "verifdrv") {
						loc = strings.TrimSpace(l)
						break
					}
				}
			}
			err = fmt.Errorf("PANIC: %v (%s)", p, loc)
		}
	}()
	return f()
}

func isPanic(err error) bool { return err != nil && strings.HasPrefix(err.Error(), "PANIC:") }

var props = map[string][]func(*Run){}
var withInner = map[string][]func(*Run){} // parts that need unexported functions

func register(prop string, f func(*Run)) { props[prop] = append(props[prop], f) }

func main() {
	prop := flag.String("prop", "", "property id")
	tier := flag.String("tier", "quick", "")
	seed := flag.Int64("seed", 1, "")
	out := flag.String("out", "/tmp/verif-replay", "")
	dir := flag.String("dir", "", "scratch directory")
	secs := flag.Int("secs", 120, "time budget")
	res := flag.String("json", "", "result file")
	flag.Parse()
	debug.SetMemoryLimit(6 << 30)
	if *dir == "" {
		d, err := os.MkdirTemp("", "verifdrv")
		if err != nil {
			panic(err)
		}
		defer os.RemoveAll(d)
		*dir = d
	}
	r := &Run{prop: *prop, tier: *tier, seed: *seed, dir: *dir, out: *out,
		rng: rand.New(rand.NewSource(*seed)), deadline: time.Now().Add(time.Duration(*secs) * time.Second),
		distinct: map[uint64]bool{}, failKeys: map[string]int{}, parts: map[string]int{}}
	r.curf, _ = os.Create(filepath.Join(*dir, "current-case"))
	quiet()
	time.AfterFunc(time.Duration(*secs+240)*time.Second, func() {
		// the last case began before the deadline and hasn't come back
		b, _ := os.ReadFile(filepath.Join(*dir, "current-case"))
		r.Fail("hang", "no answer for minutes: "+strings.TrimRight(string(b), "\x00"), nil)
		r.report(*res)
		os.Exit(0)
	})
	for _, f := range props[*prop] {
		f := f
		err := protect(func() error { f(r); return nil })
		if err != nil {
			r.Fail("driver-panic", err.Error()+" during "+r.cur, nil)
		}
	}
	r.report(*res)
}

func (r *Run) report(res string) {
	o := map[string]any{"evaluations": r.evals, "distinct": len(r.distinct), "samples": r.samples,
		"failures": r.fails, "fail_counts": r.failKeys, "parts": r.parts, "notes": r.notes}
	b, _ := json.MarshalIndent(o, "", " ")
	if res != "" {
		os.WriteFile(res, b, 0o644)
	} else {
		fmt.Println(string(b))
	}
}
