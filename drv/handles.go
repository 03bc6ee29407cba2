package main

import (
	"errors"
	"fmt"
	"io"
	"math/rand"
	"os"
	"reflect"
	"strings"

	"github.com/batchatco/go-native-netcdf/netcdf"
	"github.com/batchatco/go-native-netcdf/netcdf/api"
	"github.com/batchatco/go-native-netcdf/netcdf/cdf"
	"github.com/batchatco/go-native-netcdf/netcdf/hdf5"
)

// Handles of one open file (A04), and repeated reads (A05).

// watched is a file which counts how it is used, and reads as shortly as io.Reader allows.
type watched struct {
	f      *os.File
	rng    *rand.Rand // nil: no short reads
	closed int
	late   int
}

func (w *watched) Read(p []byte) (int, error) {
	if w.closed > 0 {
		w.late++
		return 0, os.ErrClosed
	}
	if w.rng != nil && len(p) > 1 && w.rng.Intn(2) == 0 {
		p = p[:1+w.rng.Intn(len(p))]
	}
	n, err := w.f.Read(p)
	if w.rng != nil && n > 0 && err == nil && w.rng.Intn(2) == 0 {
		// the end may be reported with the last bytes
		var b [1]byte
		pos, _ := w.f.Seek(0, io.SeekCurrent)
		if m, e := w.f.ReadAt(b[:], pos); m == 0 && e == io.EOF {
			return n, io.EOF
		}
	}
	return n, err
}

func (w *watched) Seek(o int64, wh int) (int64, error) {
	if w.closed > 0 {
		w.late++
		return 0, os.ErrClosed
	}
	return w.f.Seek(o, wh)
}

func (w *watched) Close() error { w.closed++; return nil }

func attText(m api.AttributeMap) string {
	if m == nil {
		return "<nil>"
	}
	var b strings.Builder
	for _, k := range m.Keys() {
		v, has := m.Get(k)
		t, h1 := m.GetType(k)
		g, h2 := m.GetGoType(k)
		fmt.Fprintf(&b, "%q=%T %v %v (%s %v %s %v);", k, v, v, has, t, h1, g, h2)
	}
	return b.String()
}

// gop is one reading operation of a group or of a getter; it answers with a text.
type gop struct {
	name string
	f    func(g api.Group) string
}
type vop struct {
	name string
	f    func(v api.VarGetter) string
}

var scribble bool // whether the caller overwrites what it was given

func spoil(v any) {
	if !scribble {
		return
	}
	var rec func(v reflect.Value)
	rec = func(v reflect.Value) {
		if v.Kind() == reflect.Slice {
			for i := 0; i < v.Len(); i++ {
				e := v.Index(i)
				switch e.Kind() {
				case reflect.Slice:
					rec(e)
				default:
					if e.CanSet() {
						e.Set(reflect.Zero(e.Type()))
					}
				}
			}
		}
	}
	rec(reflect.ValueOf(v))
}

func groupOps(g api.Group) []gop {
	ops := []gop{
		{"Attributes", func(g api.Group) string { return attText(g.Attributes()) }},
		{"ListVariables", func(g api.Group) string { l := g.ListVariables(); s := fmt.Sprintf("%q", l); spoil(l); return s }},
		{"ListSubgroups", func(g api.Group) string { l := g.ListSubgroups(); s := fmt.Sprintf("%q", l); spoil(l); return s }},
		{"ListTypes", func(g api.Group) string { l := g.ListTypes(); s := fmt.Sprintf("%q", l); spoil(l); return s }},
		{"ListDimensions", func(g api.Group) string { l := g.ListDimensions(); s := fmt.Sprintf("%q", l); spoil(l); return s }},
	}
	for _, n := range append(g.ListTypes(), "no type") {
		n := n
		ops = append(ops, gop{"GetType " + n, func(g api.Group) string { a, b := g.GetType(n); return fmt.Sprint(a, b) }},
			gop{"GetGoType " + n, func(g api.Group) string { a, b := g.GetGoType(n); return fmt.Sprint(a, b) }})
	}
	for _, n := range append(g.ListDimensions(), "no dimension") {
		n := n
		ops = append(ops, gop{"GetDimension " + n, func(g api.Group) string { a, b := g.GetDimension(n); return fmt.Sprint(a, b) }})
	}
	for _, n := range append(g.ListVariables(), "no variable") {
		n := n
		ops = append(ops, gop{"GetVariable " + n, func(g api.Group) string {
			v, err := g.GetVariable(n)
			if err != nil {
				return "error " + err.Error()
			}
			s := fmt.Sprintf("%T %v %q %s", v.Values, v.Values, v.Dimensions, attText(v.Attributes))
			spoil(v.Values)
			return s
		}})
	}
	return ops
}

func getterOps(v api.VarGetter, rng *rand.Rand) []vop {
	val := func(x any, err error) string {
		if err != nil {
			return "error " + err.Error()
		}
		s := fmt.Sprintf("%T %v", x, x)
		spoil(x)
		return s
	}
	ops := []vop{
		{"Len", func(v api.VarGetter) string { return fmt.Sprint(v.Len()) }},
		{"Shape", func(v api.VarGetter) string { l := v.Shape(); s := fmt.Sprint(l); spoil(l); return s }},
		{"Dimensions", func(v api.VarGetter) string { l := v.Dimensions(); s := fmt.Sprintf("%q", l); spoil(l); return s }},
		{"Attributes", func(v api.VarGetter) string { return attText(v.Attributes()) }},
		{"Type", func(v api.VarGetter) string { return v.Type() }},
		{"GoType", func(v api.VarGetter) string { return v.GoType() }},
		{"Values", func(v api.VarGetter) string { return val(v.Values()) }},
	}
	n := v.Len()
	for k := 0; k < 3; k++ {
		b := rng.Int63n(n + 1)
		e := b + rng.Int63n(n-b+1)
		if k == 2 && rng.Intn(3) == 0 {
			e = n + 1
		}
		ops = append(ops, vop{fmt.Sprintf("GetSlice %d %d", b, e), func(v api.VarGetter) string { return val(v.GetSlice(b, e)) }})
	}
	sh := v.Shape()
	if len(sh) > 0 {
		b, e := make([]int64, len(sh)), make([]int64, len(sh))
		for i, s := range sh {
			b[i] = rng.Int63n(s + 1)
			e[i] = b[i] + rng.Int63n(s-b[i]+1)
		}
		ops = append(ops, vop{fmt.Sprint("GetSliceMD ", b, e), func(v api.VarGetter) string { return val(v.GetSliceMD(b, e)) }})
	}
	return ops
}

type session struct {
	r     *Run
	path  string
	kind  string
	desc  string
	base  map[string]string
	trace []string
	all   []string // every group path
}

func openKind(kind string, w api.ReadSeekerCloser) (api.Group, error) {
	switch kind {
	case "cdf":
		return cdf.New(w)
	case "hdf5":
		return hdf5.New(w)
	}
	return netcdf.New(w)
}

// baseline answers from a fresh opening of the file
func (s *session) baseline(gp, vn, op string, gf func(api.Group) string, vf func(api.VarGetter) string) string {
	k := gp + "\x00" + vn + "\x00" + op
	if b, has := s.base[k]; has {
		return b
	}
	sc := scribble
	scribble = false
	defer func() { scribble = sc }()
	root, err := netcdf.Open(s.path)
	if err != nil {
		return "open: " + err.Error()
	}
	defer root.Close()
	g, err := root.GetGroup(gp)
	if err != nil {
		return "group: " + err.Error()
	}
	defer g.Close()
	var ans string
	if gf != nil {
		ans = gf(g)
	} else {
		v, err := g.GetVarGetter(vn)
		if err != nil {
			return "getter: " + err.Error()
		}
		ans = vf(v)
	}
	s.base[k] = ans
	return ans
}

func (s *session) groups() error {
	root, err := netcdf.Open(s.path)
	if err != nil {
		return err
	}
	defer root.Close()
	s.all = []string{"/"}
	var rec func(g api.Group, p string) error
	rec = func(g api.Group, p string) error {
		for _, n := range g.ListSubgroups() {
			sg, err := g.GetGroup(n)
			if err != nil {
				return err
			}
			s.all = append(s.all, p+n)
			err = rec(sg, p+n+"/")
			sg.Close()
			if err != nil {
				return err
			}
		}
		return nil
	}
	return rec(root, "/")
}

func (s *session) play(closing bool) (key, msg string) {
	r := s.r
	f, err := os.Open(s.path)
	if err != nil {
		return "io", err.Error()
	}
	defer f.Close()
	w := &watched{f: f}
	if r.rng.Intn(3) == 0 {
		w.rng = r.rng
	}
	kind := s.kind
	if r.rng.Intn(3) == 0 {
		kind = ""
	}
	root, err := openKind(kind, w)
	if err != nil {
		return "open", err.Error()
	}
	type gh struct {
		g    api.Group
		path string
		ops  []gop
		id   int
	}
	type vh struct {
		v   api.VarGetter
		of  *gh
		n   string
		ops []vop
		id  int
	}
	gs := []*gh{{g: root, path: "/"}}
	var vs []*vh
	id := 1
	note := func(f string, a ...any) { s.trace = append(s.trace, fmt.Sprintf(f, a...)) }
	for step := 0; step < 60 && len(gs) > 0; step++ {
		g := gs[r.rng.Intn(len(gs))]
		switch c := r.rng.Intn(20); {
		case c < 3: // another handle
			p := s.all[r.rng.Intn(len(s.all))]
			note("h%d := h%d.GetGroup(%q)", id, g.id, p)
			ng, err := g.g.GetGroup(p)
			if err != nil {
				return "get-group", fmt.Sprintf("GetGroup(%q): %v", p, err)
			}
			gs = append(gs, &gh{g: ng, path: p, id: id})
			id++
		case c < 4 && closing:
			note("h%d.Close()", g.id)
			g.g.Close()
			for i, x := range gs {
				if x == g {
					gs = append(gs[:i], gs[i+1:]...)
					break
				}
			}
			var left []*vh
			for _, v := range vs {
				if v.of != g {
					left = append(left, v)
				}
			}
			vs = left
			if s.kind == "hdf5" && r.rng.Intn(4) == 0 { // the handles of a classic file are one object
				note("h%d.Close() again", g.id)
				g.g.Close()
			}
			want := 0
			if len(gs) == 0 {
				want = 1
			}
			if w.closed != want {
				return "file-closed", fmt.Sprintf("the file was closed %d times while %d groups are open", w.closed, len(gs))
			}
		case c < 7:
			names := g.g.ListVariables()
			if len(names) == 0 {
				continue
			}
			n := names[r.rng.Intn(len(names))]
			note("v%d := h%d.GetVarGetter(%q)", id, g.id, n)
			v, err := g.g.GetVarGetter(n)
			if err != nil {
				return "get-getter", err.Error()
			}
			vs = append(vs, &vh{v: v, of: g, n: n, id: id})
			id++
		case c < 13 && len(vs) > 0:
			v := vs[r.rng.Intn(len(vs))]
			if v.ops == nil {
				v.ops = getterOps(v.v, r.rng)
			}
			o := v.ops[r.rng.Intn(len(v.ops))]
			note("v%d.%s", v.id, o.name)
			got := o.f(v.v)
			if b := s.baseline(v.of.path, v.n, o.name, nil, o.f); got != b {
				return "getter", fmt.Sprintf("%s of variable %q in %s: %s, a fresh handle says %s", o.name, v.n, v.of.path, clip(got), clip(b))
			}
		default:
			if g.ops == nil {
				g.ops = groupOps(g.g)
			}
			o := g.ops[r.rng.Intn(len(g.ops))]
			note("h%d.%s", g.id, o.name)
			got := o.f(g.g)
			if b := s.baseline(g.path, "", o.name, o.f, nil); got != b {
				return "group", fmt.Sprintf("%s of group %s: %s, a fresh handle says %s", o.name, g.path, clip(got), clip(b))
			}
		}
		if w.late > 0 {
			return "read-after-close", "the file was used after it was closed"
		}
	}
	for len(gs) > 0 {
		i := r.rng.Intn(len(gs))
		note("h%d.Close()", gs[i].id)
		gs[i].g.Close()
		gs = append(gs[:i], gs[i+1:]...)
		want := 0
		if len(gs) == 0 {
			want = 1
		}
		if w.closed != want {
			return "file-closed", fmt.Sprintf("the file was closed %d times while %d groups are open", w.closed, len(gs))
		}
	}
	return "", ""
}

func handles(closing bool) func(*Run) {
	return func(r *Run) {
		quiet()
		t := r.h5tool()
		defer t.stop()
		for i := 0; i < r.n(450, 8000) && !r.expired(); i++ {
			s := &session{r: r, base: map[string]string{}}
			part := ""
			switch i % 3 {
			case 0:
				part = "classic"
				f := r.randNC()
				s.path, s.kind, s.desc = r.write("handles.nc", f.encode(0, 0)), "cdf", f.describe()
			case 1:
				part = "HDF5 by the writer"
				p := r.hRandProgram(hOpts{odd: i%2 == 0, vlen: i%4 < 2})
				s.path, s.kind, s.desc = r.dir+"/handles.h5", "hdf5", p.String()
				if err, _ := hWriteProgram(s.path, p); err != nil {
					continue
				}
			default:
				part = "HDF5 by the C library"
				f := r.newRFile(t, r.libs(), r.rng.Intn(2) == 0, noPhase(), 0)
				tr := r.pathTree(f)
				f.root.walk(func(g *rGroup) {
					for k := r.rng.Intn(3); k > 0; k-- {
						f.randVar(r, g, tr.fresh(g, true), vOpts{t: tOpts{depth: r.rng.Intn(3), be: true}, layouts: []string{"compact", "contig", "chunked"}, maxRank: 3, filters: true})
					}
				})
				f.close()
				s.path, s.kind, s.desc = f.path, "hdf5", f.String()
			}
			var key, msg string
			err := protect(func() error {
				if err := s.groups(); err != nil {
					return errors.New("reading the groups: " + err.Error())
				}
				for k := 0; k < 2 && msg == ""; k++ {
					s.trace = nil
					scribble = !closing && r.rng.Intn(2) == 0
					key, msg = s.play(closing)
				}
				return nil
			})
			scribble = false
			r.Case(part, s.desc+strings.Join(s.trace, "\n"))
			if err != nil {
				key, msg = "error", err.Error()
				if isPanic(err) {
					key = "panic"
				}
			}
			if msg != "" {
				b, _ := os.ReadFile(s.path)
				r.Fail(key, part+": "+msg+"\noperations: "+strings.Join(s.trace, "; ")+"\nfile: "+s.desc, b)
			}
		}
	}
}

func init() {
	register("A04", handles(true))
	register("A05", handles(false))
}
