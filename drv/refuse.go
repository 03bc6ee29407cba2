package main

import (
	"bytes"
	"fmt"
	"os"
	"reflect"
	"sort"
	"strings"
	"unicode"
	"unicode/utf8"

	"github.com/batchatco/go-native-netcdf/netcdf/api"
)

// What the writers must refuse, and that a refused call leaves no trace (A03).

// validName: the names README allows, without the library's regular expressions
func validName(s string) bool {
	if s == "" || !utf8.ValidString(s) {
		return false
	}
	rs := []rune(s)
	if !unicode.IsLetter(rs[0]) && !unicode.IsNumber(rs[0]) {
		return false
	}
	for _, c := range rs {
		if c == '/' || unicode.Is(unicode.C, c) {
			return false
		}
	}
	return !unicode.Is(unicode.Z, rs[len(rs)-1])
}

var nameParts = []string{"a", "b", "Z", "0", "9", "é", "日", "_", "-", " ", ".", "/", "\x00", "\n", "\x7f", "\u00a0", "\u2028", "\u200b", "\u00ad", "@", "+", "٣", "Ⅷ", "\U0001F600", "(", "\\", "\xff", "\u0301", "\ue000"}

func (r *Run) anyName() string {
	var b strings.Builder
	for k := r.rng.Intn(5); k >= 0; k-- {
		b.WriteString(nameParts[r.rng.Intn(len(nameParts))])
	}
	if r.rng.Intn(30) == 0 {
		return ""
	}
	return b.String()
}

func (r *Run) badName() string {
	for {
		n := r.anyName()
		if !validName(n) {
			return n
		}
	}
}

type namedStruct struct{ A int32 }

func unsupported() []any {
	var np *int32
	x := int32(4)
	return []any{nil, int(1), uint(2), true, complex64(1), complex128(2), []int{1}, []uint{2}, []bool{true}, map[string]int32{"a": 1},
		namedStruct{1}, []namedStruct{{1}}, np, &x, []*int32{&x}, func() {}, make(chan int32), []any{int32(1)}, []any{}, uintptr(3), [][]int{{1}}, error(os.ErrClosed)}
}

// poke calls the writer wrongly, in a way that must be refused. vars and dims are what the
// writer has accepted so far.
type poker struct {
	r     *Run
	cdf   bool
	w     api.Writer
	vars  []string         // of this group
	dims  map[string]int64 // of the file
	order []string
	note  *[]string
	fails *[]string
}

func (p *poker) expectErr(what string, f func() error) {
	*p.note = append(*p.note, what)
	err := protect(f)
	if err == nil {
		*p.fails = append(*p.fails, "accepted: "+what)
	} else if isPanic(err) {
		*p.fails = append(*p.fails, "panics: "+what+": "+err.Error())
	}
}

func (p *poker) poke() {
	r := p.r
	okAtts := omap(r.wAtts(2, false))
	fresh := fmt.Sprintf("fresh%d", r.rng.Intn(1000000))
	newDim := fmt.Sprintf("newdim%d", r.rng.Intn(1000000))
	// wide values need the larger version of the format: a trace of them would show
	wide := func(shape ...int64) any {
		t := []string{"uint64", "int64", "float64", "uint16", "int32"}[r.rng.Intn(5)]
		return build(goTypeOf[t], shape, func(int) any { return reflect.ValueOf(7).Convert(goTypeOf[t]).Interface() })
	}
	add := func(what, name string, v any, dims []string, m api.AttributeMap) {
		if m == nil && r.rng.Intn(2) == 0 {
			m = okAtts
		}
		p.expectErr(fmt.Sprintf("AddVar(%q, %T %v, dims %q): %s", name, v, v, dims, what), func() error {
			return p.w.AddVar(name, api.Variable{Values: v, Dimensions: dims, Attributes: m})
		})
	}
	badAtts := func() (api.AttributeMap, string) {
		as := r.wAtts(2, true)
		k := r.rng.Intn(len(as) + 1)
		bad := wAtt{name: fmt.Sprintf("att%d", r.rng.Intn(1000))}
		what := ""
		switch r.rng.Intn(3) {
		case 0:
			bad.name = r.badName()
			bad.val = int32(1)
			what = fmt.Sprintf("attribute name %q", bad.name)
		case 1:
			u := unsupported()
			bad.val = u[r.rng.Intn(len(u))]
			what = fmt.Sprintf("attribute of type %T", bad.val)
		default:
			if p.cdf {
				bad.val = []any{[][]int32{{1}, {2}}, [][]float64{{1}}, []string{"a", "b"}, [][]string{{"a"}}}[r.rng.Intn(4)]
				what = fmt.Sprintf("attribute of type %T", bad.val)
			} else if r.rng.Intn(2) == 0 {
				bad.name = r.pick("CLASS", "NAME", "DIMENSION_LIST", "REFERENCE_LIST")
				bad.val = "x"
				what = "reserved attribute " + bad.name
			} else {
				bad.val = []any{[]string{"a\x00b"}, make([]int64, 9000)}[r.rng.Intn(2)]
				what = fmt.Sprintf("attribute which the file can't represent: %T", bad.val)
			}
		}
		for _, a := range as {
			if a.name == bad.name {
				return nil, ""
			}
		}
		as = append(as[:k:k], append([]wAtt{bad}, as[k:]...)...)
		return omap(as), what
	}
	switch r.rng.Intn(13) {
	case 0:
		n := r.badName()
		add("name", n, wide(2), []string{newDim}, nil)
	case 1:
		n := r.badName()
		for p.cdf && n == "" { // the classic writer names such dimensions itself
			n = r.badName()
		}
		dims := []string{newDim, n}
		if r.rng.Intn(2) == 0 {
			dims = []string{n, newDim}
		}
		add("dimension name", fresh, wide(2, 3), dims, nil)
	case 2:
		if len(p.vars) > 0 {
			add("duplicate variable", p.vars[r.rng.Intn(len(p.vars))], wide(2), []string{newDim}, nil)
		}
	case 3, 4:
		u := unsupported()
		v := u[r.rng.Intn(len(u))]
		var dims []string
		if v != nil {
			for t := reflect.TypeOf(v); t.Kind() == reflect.Slice; t = t.Elem() {
				dims = append(dims, fmt.Sprint(newDim, "_", len(dims)))
			}
		}
		add("unsupported type", fresh, v, dims, nil)
	case 5, 6:
		v := []any{[][]int32{{1, 2}, {3}}, [][]int32{{1}, {2, 3}}, [][]float64{{1}, {}}, [][][]int64{{{1}, {2}}, {{3}}}, [][][]int64{{{1}, {2, 5}}, {{3}, {4}}},
			[][]int16{{}, {1}}, [][][]uint8{{{1}}, {}}, [][]string{{"ab", "cd"}, {"ef"}}, [][]string{{}, {"a"}}}[r.rng.Intn(9)]
		n := len(shapeOf(v))
		if p.cdf {
			n = reflectDepth(v)
			if strings.Contains(reflect.TypeOf(v).String(), "string") {
				n++
			}
		}
		dims := []string{}
		for k := 0; k < n; k++ {
			dims = append(dims, fmt.Sprint(newDim, "_", k))
		}
		if p.cdf && r.rng.Intn(4) == 0 {
			dims = nil
		}
		if p.cdf || len(dims) == reflectDepth(v) {
			add("ragged", fresh, v, dims, nil)
		}
	case 7:
		// a dimension with another length
		if len(p.order) > 0 {
			d := p.order[r.rng.Intn(len(p.order))]
			l := p.dims[d] + 1 + r.rng.Int63n(3)
			if p.dims[d] > 1 && r.rng.Intn(2) == 0 {
				l = 1 + r.rng.Int63n(p.dims[d]-1)
			}
			shape, dims := []int64{l}, []string{d}
			switch r.rng.Intn(3) {
			case 0:
				shape, dims = []int64{2, l}, []string{newDim, d}
			case 1:
				shape, dims = []int64{l, 2}, []string{d, newDim}
			}
			add("dimension of another length", fresh, wide(shape...), dims, nil)
		}
	case 8:
		add("a dimension with two lengths", fresh, wide(2, 3), []string{newDim, newDim}, nil)
	case 9:
		// more dimensions than the value has, or fewer
		sh := []int64{2, 3, 2}[:r.rng.Intn(4)]
		n := len(sh) + 1 + r.rng.Intn(2)
		dims := []string{}
		for k := 0; k < n; k++ {
			dims = append(dims, fmt.Sprint(newDim, "_", k))
		}
		add("number of dimensions", fresh, wide(sh...), dims, nil)
	case 10:
		if m, what := badAtts(); what != "" {
			add(what, fresh, wide(2), []string{newDim}, m)
		}
	case 11:
		if m, what := badAtts(); what != "" {
			p.expectErr("AddAttributes: "+what, func() error { return p.w.AddAttributes(m) })
		}
	case 12:
		n := r.badName()
		if p.cdf {
			n = fresh
		} else if len(p.vars) > 0 && r.rng.Intn(2) == 0 {
			n = p.vars[r.rng.Intn(len(p.vars))]
		}
		p.expectErr(fmt.Sprintf("CreateGroup(%q)", n), func() error { _, err := p.w.CreateGroup(n); return err })
	}
}

func reflectDepth(v any) (n int) {
	for t := reflect.TypeOf(v); t.Kind() == reflect.Slice; t = t.Elem() {
		n++
	}
	return
}

// pokedWriter forwards to the real writer and calls it wrongly in between.
type pokedWriter struct {
	w    api.Writer
	p    *poker
	root *poker
}

func (w *pokedWriter) before() {
	for w.p.r.rng.Intn(2) == 0 {
		w.p.poke()
	}
}

func (w *pokedWriter) AddVar(name string, v api.Variable) error {
	w.before()
	err := w.w.AddVar(name, v)
	if err == nil {
		w.p.vars = append(w.p.vars, name)
		for i, n := range shapeOf(v.Values) {
			if i < len(v.Dimensions) {
				d := v.Dimensions[i]
				if _, has := w.p.dims[d]; !has && n > 0 {
					w.p.dims[d] = n
					*w.orderOf() = append(*w.orderOf(), d)
				}
				if n == 0 {
					break
				}
			}
		}
	}
	return err
}

func (w *pokedWriter) orderOf() *[]string { return &w.p.order }

func (w *pokedWriter) AddAttributes(m api.AttributeMap) error {
	w.before()
	return w.w.AddAttributes(m)
}

func (w *pokedWriter) CreateGroup(n string) (api.Writer, error) {
	w.before()
	g, err := w.w.CreateGroup(n)
	if err != nil {
		return nil, err
	}
	p := *w.p
	p.w = g
	p.vars = nil
	p.order = nil
	for d := range p.dims {
		p.order = append(p.order, d)
	}
	sort.Strings(p.order)
	return &pokedWriter{w: g, p: &p}, nil
}

func (w *pokedWriter) Close() error {
	w.before()
	return w.w.Close()
}

func refusals(r *Run) {
	quiet()
	for i := 0; i < r.n(2400, 40000) && !r.expired(); i++ {
		isCDF := i%2 == 0
		var part, desc string
		var write func(path string) error
		if isCDF {
			part = "classic writer"
			vars, atts, _, _ := r.wModel()
			desc = describeW(vars, atts)
			write = func(path string) error { return cdfWriteFile(path, vars, atts) }
		} else {
			part = "HDF5 writer"
			prog := r.hRandProgram(hOpts{odd: i%4 == 1, vlen: i%3 == 0})
			desc = prog.String()
			write = func(path string) error { err, _ := hWriteProgram(path, prog); return err }
		}
		var notes, fails []string
		p1, p2 := r.dir+"/plain", r.dir+"/poked"
		e1 := write(p1)
		wrapWriter = func(w api.Writer) api.Writer {
			return &pokedWriter{w: w, p: &poker{r: r, cdf: isCDF, w: w, dims: map[string]int64{}, note: &notes, fails: &fails}}
		}
		e2 := protect(func() error { return write(p2) })
		wrapWriter = nil
		r.Case(part, desc+strings.Join(notes, "\n"))
		key, msg := "", ""
		switch {
		case len(fails) > 0:
			key, msg = "accepted", fails[0]
		case (e1 == nil) != (e2 == nil):
			key, msg = "error", fmt.Sprintf("without the refused calls: %v, with: %v", e1, e2)
		case e1 == nil:
			b1, err1 := os.ReadFile(p1)
			b2, err2 := os.ReadFile(p2)
			if err1 != nil || err2 != nil {
				key, msg = "io", fmt.Sprint(err1, err2)
			} else if !bytes.Equal(b1, b2) {
				key, msg = "trace", "the refused calls changed the file"
			}
		}
		if msg != "" {
			r.Fail(key, part+": "+msg+"\nrefused calls: "+strings.Join(notes, "; ")+"\nprogram: "+desc, nil)
		}
	}
	r.names()
}

// names: exactly the valid names are accepted
func (r *Run) names() {
	for i := 0; i < r.n(1500, 30000) && !r.expired(); i++ {
		n := r.anyName()
		want := validName(n)
		for _, kind := range []string{"cdf", "hdf5"} {
			for _, use := range []string{"variable", "dimension", "attribute", "global attribute", "group"} {
				if use == "group" && kind == "cdf" {
					continue
				}
				if n == "" && use == "dimension" && kind == "cdf" {
					continue
				}
				path := r.dir + "/names"
				err := protect(func() error {
					w, err := openWriter(kind, path)
					if err != nil {
						return err
					}
					defer w.Close()
					v := api.Variable{Values: []int32{1, 2}, Dimensions: []string{"dim"}}
					switch use {
					case "variable":
						return w.AddVar(n, v)
					case "dimension":
						v.Dimensions[0] = n
						return w.AddVar("var", v)
					case "attribute":
						v.Attributes = omap([]wAtt{{name: n, val: int32(1)}})
						return w.AddVar("var", v)
					case "global attribute":
						return w.AddAttributes(omap([]wAtt{{name: n, val: int32(1)}}))
					}
					_, err = w.CreateGroup(n)
					return err
				})
				if (err == nil) != want {
					r.Fail("name", fmt.Sprintf("%s writer, %s name %q: %v, but valid is %v", kind, use, n, err, want), nil)
				}
			}
		}
		r.Case("names", n)
	}
}

func init() { register("A03", refusals) }
