package main

import (
	"fmt"
	"os"
	"strings"

	"github.com/batchatco/go-native-netcdf/netcdf/api"
	"github.com/batchatco/go-native-netcdf/netcdf/hdf5"
)

// Trees of groups made with the C library: paths (H08), and every storage of links and
// attributes (H09).

var i32T = &hT{kind: "int", size: 4, signed: true}

type tree struct {
	r    *Run
	f    *rFile
	uniq int32
	used map[*rGroup]map[string]bool
	dims map[*rGroup][]dimT
}

type dimT struct {
	name string
	n    int64
}

var pathNames = []string{"a", "aa", "ab", "b", "a b", "A", "été", "group1", "group10", "x.y", "..x", "sub", "z"}

func (t *tree) fresh(g *rGroup, many bool) string {
	if t.used[g] == nil {
		t.used[g] = map[string]bool{}
	}
	for {
		n := pathNames[t.r.rng.Intn(len(pathNames))]
		if many || t.r.rng.Intn(5) == 0 {
			n += fmt.Sprint(t.r.rng.Intn(100000))
		}
		if many && t.r.rng.Intn(20) == 0 {
			n += strings.Repeat("long", t.r.rng.Intn(60))
		}
		if !t.used[g][n] {
			t.used[g][n] = true
			return n
		}
	}
}

// leaf adds a variable whose value nobody else has.
func (t *tree) leaf(g *rGroup, name string) *rVar {
	v := &rVar{name: name, t: i32T, dims: []int64{}, layout: []string{"contig", "compact"}[t.r.rng.Intn(2)], fill: "default"}
	t.f.dset(g, v, false, "default", "default", 0, [2]int{-1, -1})
	t.uniq++
	v.vals = []any{t.uniq}
	t.f.tool.gen("write %s%s", pct(join2(g.path, name)), i32T.toks(v.vals))
	return v
}

func (t *tree) att(obj string, name string, big bool) *rAtt {
	a := &rAtt{name: name, t: i32T, dims: []int64{}}
	t.uniq++
	switch {
	case big:
		n := []int{100, 1000, 3000, 4096, 5000, 30000}[t.r.rng.Intn(6)] + t.r.rng.Intn(8)
		a.t = &hT{kind: "str", size: n, pad: "t"}
		a.vals = []any{fmt.Sprintf("%d%s", t.uniq, strings.Repeat("v", n-12))}
	case t.r.rng.Intn(4) == 0:
		a.dims = []int64{3}
		a.vals = []any{t.uniq, int32(2), int32(3)}
	default:
		a.vals = []any{t.uniq}
	}
	t.f.attr(obj, a)
	return a
}

func (t *tree) group(parent *rGroup, name string, ph [4]int) *rGroup {
	g := &rGroup{name: name, path: join2(parent.path, name)}
	t.f.group(g, t.r.rng.Intn(2) == 0, ph)
	parent.subs = append(parent.subs, g)
	return g
}

func (t *tree) phases() [4]int {
	return [][4]int{{-1, -1, -1, -1}, {0, 0, 0, 0}, {3, 2, 3, 2}, {1000, 900, 1000, 900}, {8, 6, 0, 0}}[t.r.rng.Intn(5)]
}

// ---- H08

func (r *Run) pathTree(f *rFile) *tree {
	t := &tree{r: r, f: f, used: map[*rGroup]map[string]bool{}}
	groups := []*rGroup{f.root}
	for i := 2 + r.rng.Intn(9); i > 0; i-- {
		p := groups[r.rng.Intn(len(groups))]
		groups = append(groups, t.group(p, t.fresh(p, false), noPhase()))
	}
	for _, g := range groups {
		for i := r.rng.Intn(4); i > 0; i-- {
			t.leaf(g, t.fresh(g, false))
		}
		g.atts = append(g.atts, t.att(g.path, "id", false))
		for i := r.rng.Intn(3); i > 0; i-- {
			g.atts = append(g.atts, t.att(g.path, fmt.Sprintf("att%d", i), false))
		}
	}
	return t
}

// mess writes a path with slashes the API ignores
func (r *Run) mess(p string) string {
	var b strings.Builder
	for i, part := range strings.Split(p, "/") {
		if i > 0 {
			b.WriteString("/")
			if r.rng.Intn(3) == 0 {
				b.WriteString(strings.Repeat("/", 1+r.rng.Intn(2)))
			}
		}
		b.WriteString(part)
	}
	if r.rng.Intn(3) == 0 && p != "" {
		b.WriteString(strings.Repeat("/", 1+r.rng.Intn(2)))
	}
	return b.String()
}

func h5Paths(r *Run) {
	t := r.h5tool()
	defer t.stop()
	for i := 0; i < r.n(700, 15000) && !r.expired(); i++ {
		f := r.newRFile(t, []string{"old", "v18", "latest"}[i%3], r.rng.Intn(2) == 0, noPhase(), 0)
		r.pathTree(f)
		f.close()
		r.Case("paths", f.String())
		var key, msg string
		if err := protect(func() error { key, msg = r.checkPaths(f); return nil }); err != nil {
			key, msg = "panic", err.Error()
		}
		if msg != "" {
			r.rFail(f, key, msg)
		}
	}
}

func (r *Run) checkPaths(f *rFile) (key, msg string) {
	root, err := hdf5.Open(f.path)
	if err != nil {
		return "open", err.Error()
	}
	defer root.Close()
	all := []*rGroup{}
	f.root.walk(func(g *rGroup) { all = append(all, g) })
	byPath := map[string]*rGroup{}
	for _, g := range all {
		byPath[g.path] = g
	}
	type handle struct {
		g  api.Group
		at *rGroup
	}
	handles := []handle{{root, f.root}}
	names := map[string]bool{"nosuch": true, "..": true, ".": true, "%": true}
	for _, g := range all {
		names[g.name] = true
		for _, v := range g.vars {
			names[v.name] = true
		}
	}
	delete(names, "")
	var nameList []string
	for _, g := range all {
		nameList = append(nameList, g.name)
		for _, v := range g.vars {
			nameList = append(nameList, v.name)
		}
	}
	nameList = append(nameList, "nosuch", "..", ".", " ")
	for step := 0; step < 25; step++ {
		h := handles[r.rng.Intn(len(handles))]
		var path string
		switch r.rng.Intn(6) {
		case 0, 1: // an existing group, by absolute path
			path = all[r.rng.Intn(len(all))].path
		case 2, 3: // a descendant, by relative path
			var below []*rGroup
			h.at.walk(func(g *rGroup) {
				if g != h.at {
					below = append(below, g)
				}
			})
			if len(below) == 0 {
				continue
			}
			g := below[r.rng.Intn(len(below))]
			path = strings.TrimPrefix(strings.TrimPrefix(g.path, h.at.path), "/")
		default: // anything
			for k := 1 + r.rng.Intn(3); k > 0; k-- {
				path += "/" + nameList[r.rng.Intn(len(nameList))]
			}
			if r.rng.Intn(2) == 0 {
				path = path[1:]
			}
			if strings.Contains(path, "//") || path == "" {
				continue
			}
		}
		abs := path
		if !strings.HasPrefix(path, "/") {
			abs = join2(h.at.path, path)
		}
		abs = strings.TrimSuffix(abs, "/")
		if abs == "" {
			abs = "/"
		}
		want := byPath[abs]
		given := path
		if r.rng.Intn(2) == 0 {
			given = r.mess(path)
		}
		g, err := h.g.GetGroup(given)
		if want == nil {
			if err == nil {
				g.Close()
				return "not-a-group", fmt.Sprintf("GetGroup(%q) from %q is not an error", given, h.at.path)
			}
			continue
		}
		if err != nil {
			return "get-group", fmt.Sprintf("GetGroup(%q) from %q: %v", given, h.at.path, err)
		}
		if k, m := r.rCheckGroup(want, g, checkOpts{}); m != "" {
			g.Close()
			return k, fmt.Sprintf("GetGroup(%q) from %q: %s", given, h.at.path, m)
		}
		// each child exactly once: rCheckGroup compares sorted lists, duplicates included
		handles = append(handles, handle{g, want})
	}
	for _, h := range handles[1:] {
		h.g.Close()
	}
	return "", ""
}

// ---- H09

func h5Dense(r *Run) {
	t := r.h5tool()
	defer t.stop()
	counts := []int{0, 1, 2, 7, 8, 9, 10, 16, 17, 30, 60, 130, 300}
	for i := 0; i < r.n(260, 4000) && !r.expired(); i++ {
		lib := []string{"old", "v18", "latest"}[i%3]
		track := r.rng.Intn(2) == 0
		ph := (&tree{r: r}).phases()
		if i%40 > 36 && ph[0] == 1000 {
			ph = noPhase() // the library takes minutes to remove links from such headers
		}
		f := r.newRFile(t, lib, track, ph, 0)
		tr := &tree{r: r, f: f, used: map[*rGroup]map[string]bool{}}
		groups := []*rGroup{f.root}
		for k := r.rng.Intn(3); k > 0; k-- {
			p := groups[r.rng.Intn(len(groups))]
			groups = append(groups, tr.group(p, tr.fresh(p, true), tr.phases()))
		}
		part := "links"
		for _, g := range groups {
			n := counts[r.rng.Intn(len(counts))]
			if g == f.root && i%40 == 39 {
				n = 1500 + r.rng.Intn(2000)
				part = "many links"
			}
			longest := i%13 == 6 && g == f.root && lib != "old"
			if longest {
				n = 20 + r.rng.Intn(r.n(250, 900))
				part = "long names"
			}
			for k := 0; k < n; k++ {
				name := tr.fresh(g, true)
				if longest && r.rng.Intn(8) > 0 {
					name = fmt.Sprint(k, "_", strings.Repeat("n", r.rng.Intn(4000)))
				}
				switch r.rng.Intn(8) {
				case 0:
					if len(groups) < 400 {
						tr.group(g, name, noPhase())
					}
				default:
					tr.leaf(g, name)
				}
			}
			// some go away
			if r.rng.Intn(3) == 0 && len(g.vars) > 0 {
				keep := r.rng.Intn(len(g.vars) + 1)
				if r.rng.Intn(3) == 0 {
					keep = 0
				}
				r.rng.Shuffle(len(g.vars), func(a, b int) { g.vars[a], g.vars[b] = g.vars[b], g.vars[a] })
				for _, v := range g.vars[keep:] {
					t.gen("dellink %s", pct(join2(g.path, v.name)))
				}
				g.vars = g.vars[:keep]
				for k := r.rng.Intn(5); k > 0; k-- {
					tr.leaf(g, tr.fresh(g, true))
				}
			}
			// attributes
			n = counts[r.rng.Intn(len(counts))]
			if i%40 == 19 && lib != "old" { // the old format takes minutes to write this many
				n = 800 + r.rng.Intn(1500)
				part = "many attributes"
			}
			big := r.rng.Intn(3) == 0
			heavy := 0
			if i%13 == 5 && g == f.root && lib != "old" {
				// past the direct blocks of the heap, into its indirect blocks
				n = 100 + r.rng.Intn(r.n(250, 1500))
				heavy = 2500 + r.rng.Intn(1550)
				part = "heaps of indirect blocks"
			}
			for k := 0; k < n; k++ {
				if heavy > 0 && r.rng.Intn(10) > 0 {
					a := &rAtt{name: fmt.Sprint("heavy", k), t: &hT{kind: "str", size: heavy, pad: "t"}, dims: []int64{}}
					tr.uniq++
					a.vals = []any{fmt.Sprint(tr.uniq, strings.Repeat("h", heavy-12))}
					f.attr(g.path, a)
					g.atts = append(g.atts, a)
					continue
				}
				g.atts = append(g.atts, tr.att(g.path, fmt.Sprintf("%s_%d", pathNames[r.rng.Intn(len(pathNames))], k), big && r.rng.Intn(6) == 0))
			}
			if r.rng.Intn(3) == 0 && n > 0 {
				keep := r.rng.Intn(n + 1)
				r.rng.Shuffle(n, func(a, b int) { g.atts[a], g.atts[b] = g.atts[b], g.atts[a] })
				for _, a := range g.atts[keep:] {
					t.gen("delattr %s %s", pct(g.path), pct(a.name))
				}
				g.atts = g.atts[:keep]
			}
			if len(g.vars) > 0 && r.rng.Intn(2) == 0 {
				v := g.vars[r.rng.Intn(len(g.vars))]
				n := counts[r.rng.Intn(9)]
				for k := 0; k < n; k++ {
					v.atts = append(v.atts, tr.att(join2(g.path, v.name), fmt.Sprintf("va%d", k), big && r.rng.Intn(6) == 0))
				}
			}
		}
		// other names of the same objects
		if r.rng.Intn(3) == 0 {
			part += " and hard links"
			for k := 1 + r.rng.Intn(3); k > 0; k-- {
				g := groups[r.rng.Intn(len(groups))]
				from := groups[r.rng.Intn(len(groups))]
				name := tr.fresh(g, true)
				if len(from.vars) > 0 && r.rng.Intn(3) > 0 {
					v := *from.vars[r.rng.Intn(len(from.vars))]
					t.gen("hardlink %s %s", pct(join2(from.path, v.name)), pct(join2(g.path, name)))
					v.name = name
					g.vars = append(g.vars, &v)
				} else if strings.HasPrefix(g.path+"/", strings.TrimSuffix(from.path, "/")+"/") {
					// a link to itself or a group around it isn't followed
					t.gen("hardlink %s %s", pct(from.path), pct(join2(g.path, name)))
				}
			}
		}
		f.close()
		r.Case(part, f.String())
		if key, msg := r.rCheck(f, checkOpts{}); msg != "" {
			r.rFail(f, key, msg)
		}
	}
	_ = os.Remove
}

func init() {
	register("H08", h5Paths)
	register("H09", h5Dense)
}
