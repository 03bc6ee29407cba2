package main

import (
	"encoding/binary"
	"encoding/hex"
	"fmt"
	"math"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strings"

	"github.com/batchatco/go-native-netcdf/netcdf/api"
	"github.com/batchatco/go-native-netcdf/netcdf/hdf5"
	"github.com/batchatco/go-native-netcdf/netcdf/util"
)

// programs for the HDF5 writer

type hAtt struct {
	name string
	val  any
}
type hVar struct {
	name string
	dims []string
	val  any
	atts []hAtt
}
type hGroup struct {
	name string
	path string
	vars []*hVar
	subs []*hGroup
	atts []hAtt
}

func (g *hGroup) walk(f func(*hGroup)) {
	f(g)
	for _, s := range g.subs {
		s.walk(f)
	}
}

func hOmap(atts []hAtt) api.AttributeMap {
	keys := []string{}
	vals := map[string]any{}
	for _, a := range atts {
		keys = append(keys, a.name)
		vals[a.name] = a.val
	}
	m, err := util.NewOrderedMap(keys, vals)
	if err != nil {
		panic(err)
	}
	return m
}

var h5Scalars = []string{"int8", "uint8", "int16", "uint16", "int32", "uint32", "int64", "uint64", "float32", "float64", "string"}

var h5Strings = []string{"", "a", "hello", "été", "with\nnewline", "0123456", "01234567", "a longer string value", "__dimref:x", "日本語", "    "}

func (r *Run) scalarVal(t string) any {
	x := r.rng.Uint64()
	if r.rng.Intn(4) == 0 {
		x = []uint64{0, 1, ^uint64(0), 1 << 63, 1<<63 - 1, 0x80}[r.rng.Intn(6)]
	}
	switch t {
	case "int8":
		return int8(x)
	case "uint8":
		return uint8(x)
	case "int16":
		return int16(x)
	case "uint16":
		return uint16(x)
	case "int32":
		return int32(x)
	case "uint32":
		return uint32(x)
	case "int64":
		return int64(x)
	case "uint64":
		return x
	case "float32":
		f := math.Float32frombits(uint32(x))
		if f != f {
			f = 1.5
		}
		return f
	case "float64":
		f := math.Float64frombits(x)
		if f != f {
			f = -2.5
		}
		return f
	}
	s := h5Strings[r.rng.Intn(len(h5Strings))]
	if r.rng.Intn(8) == 0 {
		s = strings.Repeat("xyz", r.rng.Intn(200))
	}
	return s
}

func (r *Run) arrayVal(t string, shape []int64) any {
	return build(goTypeOf[t], shape, func(int) any { return r.scalarVal(t) })
}

func (r *Run) hAtts(max int) []hAtt {
	used := map[string]bool{}
	var out []hAtt
	for k := r.rng.Intn(max + 1); k > 0; k-- {
		a := hAtt{name: r.name(used)}
		t := h5Scalars[r.rng.Intn(len(h5Scalars))]
		switch r.rng.Intn(5) {
		case 0, 1:
			a.val = r.scalarVal(t)
		case 2, 3:
			a.val = r.arrayVal(t, []int64{int64(r.rng.Intn(6))})
		default:
			a.val = r.arrayVal(t, []int64{int64(1 + r.rng.Intn(3)), int64(1 + r.rng.Intn(3))})
		}
		out = append(out, a)
	}
	return out
}

type hOpts struct {
	odd  bool
	vlen bool
}

func (r *Run) hRandProgram(o hOpts) *hGroup {
	used := map[string]bool{}
	type dim struct {
		name string
		n    int64
	}
	var dims []dim
	for i := r.rng.Intn(6); i > 0; i-- {
		n := int64(1 + r.rng.Intn(5))
		if r.rng.Intn(15) == 0 {
			n = 0
		}
		dims = append(dims, dim{r.name(used), n})
	}
	root := &hGroup{path: "/"}
	groups := []*hGroup{root}
	usedIn := map[*hGroup]map[string]bool{root: {}}
	for _, d := range dims {
		usedIn[root][d.name] = true
	}
	for i := r.rng.Intn(5); i > 0; i-- {
		p := groups[r.rng.Intn(len(groups))]
		g := &hGroup{name: r.name(usedIn[p])}
		g.path = p.path + g.name + "/"
		p.subs = append(p.subs, g)
		groups = append(groups, g)
		usedIn[g] = map[string]bool{}
		for _, d := range dims {
			if !o.odd {
				usedIn[g][d.name] = true
			}
		}
	}
	// coordinate variables, in the root group
	for _, d := range dims {
		if r.rng.Intn(3) == 0 {
			t := h5Scalars[r.rng.Intn(len(h5Scalars))]
			if t == "string" && r.rng.Intn(2) == 0 {
				t = "int32"
			}
			root.vars = append(root.vars, &hVar{d.name, []string{d.name}, r.arrayVal(t, []int64{d.n}), r.hAtts(2)})
		}
	}
	for _, g := range groups {
		for i := r.rng.Intn(5); i > 0; i-- {
			v := &hVar{}
			if o.odd && len(dims) > 0 && r.rng.Intn(4) == 0 {
				v.name = dims[r.rng.Intn(len(dims))].name
				dup := false
				for _, w := range g.vars {
					dup = dup || w.name == v.name
				}
				if dup {
					continue
				}
			} else {
				v.name = r.name(usedIn[g])
			}
			shape := []int64{}
			v.dims = []string{}
			if len(dims) > 0 {
				seen := map[string]bool{}
				for k := r.rng.Intn(4); k > 0; k-- {
					d := dims[r.rng.Intn(len(dims))]
					if seen[d.name] && !o.odd {
						continue
					}
					seen[d.name] = true
					v.dims = append(v.dims, d.name)
					shape = append(shape, d.n)
				}
			}
			t := h5Scalars[r.rng.Intn(len(h5Scalars))]
			v.val = r.arrayVal(t, shape)
			if o.vlen && len(shape) > 0 && r.rng.Intn(3) == 0 && t != "string" {
				n := r.rng.Intn(3)
				ty := reflect.SliceOf(goTypeOf[t])
				v.val = build(ty, shape, func(int) any {
					k := int64(r.rng.Intn(5) + n)
					return r.arrayVal(t, []int64{k})
				})
			}
			v.atts = r.hAtts(3)
			if r.rng.Intn(3) == 0 {
				v.atts = nil
			}
			g.vars = append(g.vars, v)
		}
		if r.rng.Intn(2) == 0 {
			g.atts = r.hAtts(4)
		}
	}
	return root
}

func (g *hGroup) String() string {
	var b strings.Builder
	g.walk(func(g *hGroup) {
		fmt.Fprintf(&b, "group %q atts", g.path)
		for _, a := range g.atts {
			fmt.Fprintf(&b, " %q=%s", a.name, show(a.val))
		}
		b.WriteString("\n")
		for _, v := range g.vars {
			fmt.Fprintf(&b, "  var %q dims %q value %s atts", v.name, v.dims, show(v.val))
			for _, a := range v.atts {
				fmt.Fprintf(&b, " %q=%s", a.name, show(a.val))
			}
			b.WriteString("\n")
		}
	})
	return b.String()
}

// hWriteProgram runs the program; the first refusal or error is returned.
func hWriteProgram(path string, root *hGroup) (err error, stage string) {
	err = protect(func() error {
		w, err := openWriter("hdf5", path)
		if err != nil {
			return err
		}
		stage = "add"
		var rec func(w api.Writer, g *hGroup) error
		rec = func(w api.Writer, g *hGroup) error {
			if g.atts != nil {
				if err := w.AddAttributes(hOmap(g.atts)); err != nil {
					return fmt.Errorf("AddAttributes: %w", err)
				}
			}
			for _, v := range g.vars {
				var m api.AttributeMap
				if v.atts != nil {
					m = hOmap(v.atts)
				}
				if err := w.AddVar(v.name, api.Variable{Values: v.val, Dimensions: v.dims, Attributes: m}); err != nil {
					return fmt.Errorf("AddVar %q: %w", v.name, err)
				}
			}
			for _, s := range g.subs {
				sw, err := w.CreateGroup(s.name)
				if err != nil {
					return fmt.Errorf("CreateGroup %q: %w", s.name, err)
				}
				if err := rec(sw, s); err != nil {
					return err
				}
				if err := sw.Close(); err != nil {
					return err
				}
			}
			return nil
		}
		if err := rec(w, root); err != nil {
			w.Close()
			return err
		}
		stage = "close"
		return w.Close()
	})
	return
}

// attExpect: one-element slices come back as the element
func attExpect(v any) any {
	rv := reflect.ValueOf(v)
	if rv.Kind() == reflect.Slice && rv.Len() == 1 && rv.Type().Name() == "" {
		return rv.Index(0).Interface()
	}
	return v
}

func hCheckAtts(where string, want []hAtt, m api.AttributeMap) string {
	if m == nil {
		return where + ": no attribute map"
	}
	got := append([]string{}, m.Keys()...)
	exp := []string{}
	for _, a := range want {
		exp = append(exp, a.name)
	}
	g2, e2 := append([]string{}, got...), append([]string{}, exp...)
	sort.Strings(g2)
	sort.Strings(e2)
	if fmt.Sprint(g2) != fmt.Sprint(e2) {
		return fmt.Sprintf("%s: attributes %q, want %q", where, got, exp)
	}
	if fmt.Sprintf("%q", got) != fmt.Sprintf("%q", exp) {
		return fmt.Sprintf("%s: attribute order %q, want %q", where, got, exp)
	}
	for _, a := range want {
		v, has := m.Get(a.name)
		if !has || !same(v, attExpect(a.val)) && !(emptyish(v) && emptyish(a.val)) {
			return fmt.Sprintf("%s attribute %q: %s, want %s", where, a.name, show(v), show(attExpect(a.val)))
		}
	}
	return ""
}

// emptyish: a value with no elements at all; its nesting below the empty level cannot be recorded
func emptyish(v any) bool {
	rv := reflect.ValueOf(v)
	return rv.Kind() == reflect.Slice && rv.Len() == 0
}

func h5Check(root *hGroup, g api.Group) string {
	var rec func(want *hGroup, g api.Group) string
	rec = func(want *hGroup, g api.Group) string {
		if s := hCheckAtts("group "+want.path, want.atts, g.Attributes()); s != "" {
			return s
		}
		names := append([]string{}, g.ListVariables()...)
		sort.Strings(names)
		exp := []string{}
		for _, v := range want.vars {
			exp = append(exp, v.name)
		}
		sort.Strings(exp)
		if fmt.Sprintf("%q", names) != fmt.Sprintf("%q", exp) {
			return fmt.Sprintf("group %s: variables %q, want %q", want.path, names, exp)
		}
		subs := append([]string{}, g.ListSubgroups()...)
		sort.Strings(subs)
		exp = []string{}
		for _, s := range want.subs {
			exp = append(exp, s.name)
		}
		sort.Strings(exp)
		if fmt.Sprintf("%q", subs) != fmt.Sprintf("%q", exp) {
			return fmt.Sprintf("group %s: subgroups %q, want %q", want.path, subs, exp)
		}
		for _, v := range want.vars {
			where := "variable " + want.path + v.name
			av, err := g.GetVariable(v.name)
			if err != nil {
				return fmt.Sprintf("%s: %v", where, err)
			}
			if !same(av.Values, v.val) && !(hShapeProd(v) == 0 && shapeProdVal(av.Values) == 0) {
				return fmt.Sprintf("%s: value %s, want %s", where, show(av.Values), show(v.val))
			}
			if fmt.Sprintf("%q", av.Dimensions) != fmt.Sprintf("%q", v.dims) && len(av.Dimensions)+len(v.dims) > 0 {
				return fmt.Sprintf("%s: dimensions %q, want %q", where, av.Dimensions, v.dims)
			}
			if s := hCheckAtts(where, v.atts, av.Attributes); s != "" {
				return s
			}
		}
		for _, s := range want.subs {
			sg, err := g.GetGroup(s.name)
			if err != nil {
				return fmt.Sprintf("GetGroup %q in %s: %v", s.name, want.path, err)
			}
			m := rec(s, sg)
			sg.Close()
			if m != "" {
				return m
			}
		}
		return ""
	}
	return rec(root, g)
}

func hShapeProd(v *hVar) int64 {
	p := int64(1)
	for _, n := range shapeOf(v.val) {
		p *= n
	}
	return p
}
func shapeProdVal(v any) int64 {
	p := int64(1)
	for _, n := range shapeOf(v) {
		p *= n
	}
	return p
}

func init() {
	register("H01", h5RoundTrip)
	register("H02", h5Structure)
}

func h5RoundTrip(r *Run) {
	for i := 0; i < r.n(1500, 20000) && !r.expired(); i++ {
		o := hOpts{odd: i%4 == 3, vlen: i%3 == 1}
		p := r.hRandProgram(o)
		part := "programs"
		if o.odd {
			part = "programs with name clashes"
		}
		r.Case(part, p.String())
		path := filepath.Join(r.dir, "w.nc")
		err, stage := hWriteProgram(path, p)
		if err != nil {
			switch {
			case isPanic(err):
				r.Fail("writer-panic", err.Error()+"\n"+p.String(), nil)
			case !o.odd:
				r.Fail("writer-refuses", stage+": "+err.Error()+"\n"+p.String(), nil)
			case stage == "close":
				r.Fail("writer-close", stage+": "+err.Error()+"\n"+p.String(), nil)
			}
			continue
		}
		data, _ := os.ReadFile(path)
		msg := ""
		err = protect(func() error {
			g, err := hdf5.Open(path)
			if err != nil {
				return err
			}
			defer g.Close()
			msg = h5Check(p, g)
			return nil
		})
		if err != nil {
			r.Fail("reader-error", err.Error()+"\n"+p.String(), data)
		} else if msg != "" {
			k := "differs"
			if strings.Contains(msg, "attribute order") {
				k = "attribute-order"
			}
			r.Fail(k, msg+"\n"+p.String(), data)
		}
	}
}

// expected text of h5tool's dump for a value
func h5TypeOf(v any, ndims int, attr bool) (typ string, vlen bool) {
	t := reflect.TypeOf(v)
	for i := 0; i < ndims; i++ {
		t = t.Elem()
	}
	if t.Kind() == reflect.Slice {
		return "v(" + scalarH5Type(t.Elem()) + ")", true
	}
	if t.Kind() == reflect.String {
		if ndims == 0 {
			return fmt.Sprintf("s%d", len(reflect.ValueOf(v).String())+1), false
		}
		return "S", false
	}
	return scalarH5Type(t), false
}

func h5Text(v any, ndims int) string {
	var b strings.Builder
	rv := reflect.ValueOf(v)
	var rec func(x reflect.Value, d int)
	rec = func(x reflect.Value, d int) {
		if x.Kind() == reflect.Slice {
			if d == 0 {
				fmt.Fprintf(&b, " %d", x.Len())
			}
			for i := 0; i < x.Len(); i++ {
				rec(x.Index(i), d-1)
			}
			return
		}
		if x.Kind() == reflect.String {
			h := hex.EncodeToString([]byte(x.String()))
			if ndims == 0 {
				b.WriteString(" " + h + "00")
			} else {
				b.WriteString(" s" + h)
			}
			return
		}
		b.WriteString(" " + scalarHex(x.Interface()))
	}
	rec(rv, ndims)
	return b.String()
}

func shapeText(v any, ndims int, dims []string, sizes map[string]int64) string {
	s := shapeOf(v)
	for len(s) < ndims {
		// the value does not tell; the dimension has the length it has elsewhere
		n := int64(0)
		if len(s) < len(dims) {
			n = sizes[dims[len(s)]]
		}
		s = append(s, n)
	}
	out := fmt.Sprintf(" %d", ndims)
	for i := 0; i < ndims; i++ {
		out += fmt.Sprintf(" %d", s[i])
	}
	return out
}

// h5Structure: the HDF5 C library reads the written file and finds the same content;
// superblock and metadata are checked by an independent walk.
func h5Structure(r *Run) {
	t := r.h5tool()
	defer t.stop()
	for i := 0; i < r.n(600, 8000) && !r.expired(); i++ {
		o := hOpts{odd: i%5 == 4, vlen: i%3 == 1}
		p := r.hRandProgram(o)
		r.Case("programs", p.String())
		path := filepath.Join(r.dir, "w.nc")
		err, _ := hWriteProgram(path, p)
		if err != nil {
			if isPanic(err) {
				r.Fail("writer-panic", err.Error()+"\n"+p.String(), nil)
			}
			continue
		}
		data, _ := os.ReadFile(path)
		if len(data) < 48 || binary.LittleEndian.Uint64(data[28:]) != uint64(len(data)) {
			r.Fail("eof-address", p.String(), data)
			continue
		}
		if m := h5Walk(data); m != "" {
			r.Fail("structure", m+"\n"+p.String(), data)
			continue
		}
		lines, err := t.do("dump %s", pct(path))
		if err != nil {
			r.Fail("library-rejects", err.Error()+"\n"+p.String(), data)
			continue
		}
		if m := compareDump(p, lines); m != "" {
			r.Fail("library-reads-otherwise", m+"\n"+p.String()+"\n"+strings.Join(lines, "\n"), data)
		}
	}
}

func compareDump(p *hGroup, lines []string) string {
	got := map[string][]string{} // object -> lines
	objs := map[string]string{}
	cur := ""
	for _, l := range lines {
		f := strings.SplitN(l, " ", 3)
		switch f[0] {
		case "group", "dset", "type":
			cur = f[1]
			if _, dup := objs[cur]; dup {
				return "object listed twice: " + cur
			}
			objs[cur] = l
		case "attr":
			got[cur] = append(got[cur], l)
		default:
			return "library: " + l
		}
	}
	dimsz := map[string]bool{}
	sizes := map[string]int64{}
	msg := ""
	expObj := map[string]bool{}
	p.walk(func(g *hGroup) {
		for _, v := range g.vars {
			for i, d := range v.dims {
				dimsz[d] = true
				if sh := shapeOf(v.val); i < len(sh) {
					sizes[d] = sh[i]
				}
			}
		}
	})
	p.walk(func(g *hGroup) {
		gp := strings.TrimSuffix(g.path, "/")
		if gp == "" {
			gp = "/"
		}
		chkAtts := func(obj string, atts []hAtt, extra map[string]string) {
			want := map[string]string{}
			for _, a := range atts {
				nd := len(shapeOf(a.val))
				ty, _ := h5TypeOf(a.val, nd, true)
				want[a.name] = "attr " + pctName(a.name) + " " + ty + shapeText(a.val, nd, nil, nil) + " :" + h5Text(a.val, nd)
			}
			for k, v := range extra {
				want[k] = v
			}
			var w, h []string
			for _, l := range want {
				w = append(w, l)
			}
			h = append(h, got[obj]...)
			sort.Strings(w)
			sort.Strings(h)
			if strings.Join(w, "\n") != strings.Join(h, "\n") && msg == "" {
				msg = fmt.Sprintf("attributes of %s:\n got  %s\n want %s", obj, strings.Join(h, "\n      "), strings.Join(w, "\n      "))
			}
		}
		o := objs[pctName(gp)]
		expObj[pctName(gp)] = true
		if o != "group "+pctName(gp) {
			msg = "no group " + gp
			return
		}
		extra := map[string]string{}
		if gp == "/" {
			s := "version=2,github.com/batchatco/go-native-netcdf=1.0"
			extra["_NCProperties"] = fmt.Sprintf("attr _NCProperties s%d 0 : %s00", len(s)+1, hex.EncodeToString([]byte(s)))
		}
		chkAtts(pctName(gp), g.atts, extra)
		for _, v := range g.vars {
			vp := pctName(strings.TrimSuffix(g.path, "/") + "/" + v.name)
			expObj[vp] = true
			ty, _ := h5TypeOf(v.val, len(v.dims), false)
			want := "dset " + vp + " " + ty + shapeText(v.val, len(v.dims), v.dims, sizes) + " :" + h5Text(v.val, len(v.dims))
			if objs[vp] != want && msg == "" {
				msg = fmt.Sprintf("dataset %s:\n got  %s\n want %s", vp, objs[vp], want)
				return
			}
			extra := map[string]string{}
			if len(v.dims) == 1 && v.dims[0] == v.name && gp == "/" {
				for _, l := range got[vp] {
					f := strings.Fields(l)
					if f[1] == "CLASS" || f[1] == "NAME" || f[1] == "_Netcdf4Dimid" {
						extra[f[1]] = l
					}
				}
				if !strings.HasSuffix(extra["CLASS"], hex.EncodeToString([]byte("DIMENSION_SCALE"))+"00") || len(extra) != 3 {
					msg = "coordinate variable " + vp + " is not a dimension scale"
				}
			} else if len(v.dims) > 0 {
				l := fmt.Sprintf("attr DIMENSION_LIST v(r) 1 %d :", len(v.dims))
				for _, d := range v.dims {
					l += " 1 " + pctName("/"+d)
				}
				extra["DIMENSION_LIST"] = l
			}
			chkAtts(vp, v.atts, extra)
		}
	})
	if msg != "" {
		return msg
	}
	for o, l := range objs {
		if expObj[o] {
			continue
		}
		// only the dimension scales the writer adds
		isDim := false
		for d := range dimsz {
			isDim = isDim || o == pctName("/"+d)
		}
		if !isDim {
			return "unexpected object " + l
		}
		if !strings.HasSuffix(strings.Join(got[o], "|"), "") || !strings.Contains(strings.Join(got[o], "|"), hex.EncodeToString([]byte("DIMENSION_SCALE"))) {
			return "dimension without CLASS: " + l
		}
	}
	return ""
}

// pctName: as h5tool prints names
func pctName(s string) string { return pct(s) }
