package main

import (
	"encoding/binary"
	"fmt"
	"math"
	"os"
	"path/filepath"
	"reflect"
	"strings"

	"github.com/batchatco/go-native-netcdf/netcdf/api"
	"github.com/batchatco/go-native-netcdf/netcdf/cdf"
	"github.com/batchatco/go-native-netcdf/netcdf/hdf5"
)

func quiet() {
	cdf.SetLogLevel(0)
	hdf5.SetLogLevel(0)
}

var ncNames = []string{"a", "b2", "temp", "x_y", "long_name_of_this", "é", "日本", "Z9", "n-1", "with space", "q+", "t.u", "abc", "abcd", "abcde"}

func (r *Run) name(used map[string]bool) string {
	for {
		n := ncNames[r.rng.Intn(len(ncNames))]
		if r.rng.Intn(3) == 0 {
			n += fmt.Sprint(r.rng.Intn(1000))
		}
		if !used[n] {
			used[n] = true
			return n
		}
	}
}

func (r *Run) randAtts(version int, max int) []ncAtt {
	used := map[string]bool{}
	var out []ncAtt
	for k := r.rng.Intn(max + 1); k > 0; k-- {
		a := ncAtt{name: r.name(used)}
		a.typ = 1 + r.rng.Intn(6)
		if version == 5 {
			a.typ = 1 + r.rng.Intn(11)
		}
		n := []int{0, 1, 2, 3, 4, 5, 7, 9}[r.rng.Intn(8)]
		a.raw = randBytes(r.rng, int64(n*ncSize[a.typ]))
		if a.typ == ncChar {
			for i := range a.raw {
				a.raw[i] = byte(32 + int(a.raw[i])%90)
			}
		}
		out = append(out, a)
	}
	return out
}

// randNC makes a well-formed classic file model.
func (r *Run) randNC() *ncFile {
	f := &ncFile{version: []int{1, 2, 5}[r.rng.Intn(3)]}
	used := map[string]bool{}
	nd := r.rng.Intn(6)
	rec := -1
	if nd > 0 && r.rng.Intn(3) != 0 {
		rec = r.rng.Intn(nd)
		f.numrecs = int64([]int{0, 1, 2, 3, 5, 9}[r.rng.Intn(6)])
	}
	for i := 0; i < nd; i++ {
		l := int64(1 + r.rng.Intn(6))
		if i == rec {
			l = 0
		}
		f.dims = append(f.dims, ncDim{r.name(used), l})
	}
	f.atts = r.randAtts(f.version, 5)
	used = map[string]bool{}
	nv := r.rng.Intn(6)
	maxRec := 99
	if r.rng.Intn(3) == 0 {
		maxRec = 1
	}
	for i := 0; i < nv; i++ {
		v := &ncVar{name: r.name(used)}
		v.typ = 1 + r.rng.Intn(6)
		if f.version == 5 {
			v.typ = 1 + r.rng.Intn(11)
		}
		if nd > 0 {
			for k := r.rng.Intn(4); k > 0; k-- {
				d := r.rng.Intn(nd)
				if d == rec && (len(v.dims) > 0 || maxRec == 0) {
					continue
				}
				v.dims = append(v.dims, d)
			}
			if rec >= 0 && len(v.dims) > 0 && v.dims[0] == rec {
				maxRec--
			}
		}
		v.atts = r.randAtts(f.version, 3)
		f.vars = append(f.vars, v)
	}
	for _, v := range f.vars {
		v.raw = randBytes(r.rng, f.total(v)*int64(ncSize[v.typ]))
		if v.typ == ncFloat { // keep NaN payload questions out
			fixNaN(v.raw, 4)
		}
		if v.typ == ncDouble {
			fixNaN(v.raw, 8)
		}
	}
	return f
}

func fixNaN(b []byte, w int) {
	for i := 0; i+w <= len(b); i += w {
		b[i] &= 0xbf
	}
}

func (f *ncFile) describe() string {
	var sb strings.Builder
	fmt.Fprintf(&sb, "v%d recs=%d dims=", f.version, f.numrecs)
	for _, d := range f.dims {
		fmt.Fprintf(&sb, "%d,", d.len)
	}
	sb.WriteString(" vars=")
	for _, v := range f.vars {
		fmt.Fprintf(&sb, "%s%v/%d ", ncCDL[v.typ], v.dims, len(v.atts))
	}
	fmt.Fprintf(&sb, "gatts=%d", len(f.atts))
	return sb.String()
}

func (r *Run) write(name string, b []byte) string {
	p := filepath.Join(r.dir, name)
	if err := os.WriteFile(p, b, 0o644); err != nil {
		panic(err)
	}
	return p
}

func attValue(a ncAtt) any {
	sz := ncSize[a.typ]
	n := len(a.raw) / sz
	if a.typ == ncChar {
		return string(a.raw)
	}
	if n == 1 {
		return goScalar(a.typ, a.raw)
	}
	return build(goTypeOf[ncGo[a.typ]], []int64{int64(n)}, func(i int) any { return goScalar(a.typ, a.raw[i*sz:]) })
}

// checkAtts compares an attribute map with the stored attributes.
func checkAtts(am api.AttributeMap, atts []ncAtt) error {
	var keys []string
	for _, a := range atts {
		keys = append(keys, a.name)
	}
	if !same(append([]string{}, am.Keys()...), append([]string{}, keys...)) {
		return fmt.Errorf("attribute keys %v, want %v", am.Keys(), keys)
	}
	for _, a := range atts {
		v, has := am.Get(a.name)
		if !has {
			return fmt.Errorf("attribute %q missing", a.name)
		}
		if !same(v, attValue(a)) {
			return fmt.Errorf("attribute %q: %s, want %s", a.name, show(v), show(attValue(a)))
		}
	}
	return nil
}

// checkTypes checks what a getter says about itself against the values it returns (A02).
func checkTypes(g api.Group, vg api.VarGetter, typ int, shape []int64, dims []string) error {
	if vg.Type() != ncCDL[typ] {
		return fmt.Errorf("Type %q, want %q", vg.Type(), ncCDL[typ])
	}
	if vg.GoType() != ncGo[typ] {
		return fmt.Errorf("GoType %q, want %q", vg.GoType(), ncGo[typ])
	}
	if !same(append([]int64{}, vg.Shape()...), shape) {
		return fmt.Errorf("Shape %v, want %v", vg.Shape(), shape)
	}
	if !same(append([]string{}, vg.Dimensions()...), dims) {
		return fmt.Errorf("Dimensions %q, want %q", vg.Dimensions(), dims)
	}
	l := int64(1)
	if len(shape) > 0 {
		l = shape[0]
	}
	if vg.Len() != l {
		return fmt.Errorf("Len %d, want %d", vg.Len(), l)
	}
	vals, err := vg.Values()
	if err != nil {
		return fmt.Errorf("Values: %v", err)
	}
	if got, want := fmt.Sprintf("%T", vals), valueType(ncGo[typ], len(shape)); got != want {
		return fmt.Errorf("value has Go type %s, want %s", got, want)
	}
	return nil
}

func dimNamesOf(f *ncFile, v *ncVar) []string {
	out := []string{}
	for _, d := range v.dims {
		out = append(out, f.dims[d].name)
	}
	return out
}

// checkNCFile opens path and compares everything with the model.
func checkNCFile(path string, f *ncFile, what string) error {
	g, err := cdf.Open(path)
	if err != nil {
		return fmt.Errorf("open: %v", err)
	}
	defer g.Close()
	var names, dnames []string
	for _, v := range f.vars {
		names = append(names, v.name)
	}
	for _, d := range f.dims {
		dnames = append(dnames, d.name)
	}
	if !same(append([]string{}, g.ListVariables()...), append([]string{}, names...)) {
		return fmt.Errorf("variables %q, want %q", g.ListVariables(), names)
	}
	if what == "types" {
		if !same(append([]string{}, g.ListDimensions()...), append([]string{}, dnames...)) {
			return fmt.Errorf("dimensions %q, want %q", g.ListDimensions(), dnames)
		}
		for _, d := range f.dims {
			n, has := g.GetDimension(d.name)
			if !has || n != uint64(d.len) {
				return fmt.Errorf("GetDimension(%q) = %d,%v want %d", d.name, n, has, d.len)
			}
		}
		if _, has := g.GetDimension("no such dim"); has {
			return fmt.Errorf("GetDimension of an absent dimension")
		}
	}
	if what != "slices" {
		if err := checkAtts(g.Attributes(), f.atts); err != nil {
			return fmt.Errorf("global %v", err)
		}
	}
	for _, v := range f.vars {
		vg, err := g.GetVarGetter(v.name)
		if err != nil {
			return fmt.Errorf("GetVarGetter(%q): %v", v.name, err)
		}
		shape := f.shape(v)
		want := buildNC(v.typ, shape, v.raw)
		switch what {
		case "types":
			if err := checkTypes(g, vg, v.typ, shape, dimNamesOf(f, v)); err != nil {
				return fmt.Errorf("variable %q (%s): %v", v.name, ncCDL[v.typ], err)
			}
			continue
		case "slices":
			if err := checkSlices(g, vg, v.name, v.typ, ncSize[v.typ], shape, v.raw, buildNC); err != nil {
				return fmt.Errorf("variable %q (%s, shape %v): %w", v.name, ncCDL[v.typ], shape, err)
			}
			continue
		}
		if err := checkAtts(vg.Attributes(), v.atts); err != nil {
			return fmt.Errorf("variable %q %v", v.name, err)
		}
		if !same(append([]string{}, vg.Dimensions()...), dimNamesOf(f, v)) {
			return fmt.Errorf("variable %q dimensions %q, want %q", v.name, vg.Dimensions(), dimNamesOf(f, v))
		}
		gv, err := g.GetVariable(v.name)
		if err != nil {
			return fmt.Errorf("GetVariable(%q): %v", v.name, err)
		}
		if !same(gv.Values, want) {
			return fmt.Errorf("variable %q (%s, shape %v): %s, want %s", v.name, ncCDL[v.typ], shape, show(gv.Values), show(want))
		}
		if err := checkAtts(gv.Attributes, v.atts); err != nil {
			return fmt.Errorf("GetVariable %q %v", v.name, err)
		}
	}
	if _, err := g.GetVariable("no such variable"); err == nil {
		return fmt.Errorf("GetVariable of an absent variable succeeds")
	}
	return nil
}

type keyed struct {
	key string
	err error
}

func (k keyed) Error() string { return k.err.Error() }
func keyErr(key, f string, a ...any) error {
	return keyed{key, fmt.Errorf(f, a...)}
}
func keyOf(err error, def string) string {
	for e := err; e != nil; {
		if k, ok := e.(keyed); ok {
			return k.key
		}
		u, ok := e.(interface{ Unwrap() error })
		if !ok {
			break
		}
		e = u.Unwrap()
	}
	if isPanic(err) {
		return def + "-panic"
	}
	return def
}

// checkSlices: every slice of the first dimension and blocks of all dimensions.
func checkSlices(g api.Group, vg api.VarGetter, name string, typ, sz int, shape []int64, raw []byte,
	mk func(int, []int64, []byte) any) error {
	full := mk(typ, shape, raw)
	vals, err := vg.Values()
	if err != nil || !same(vals, full) {
		return keyErr("values", "Values: %v %s, want %s", err, show(vals), show(full))
	}
	gv, err := g.GetVariable(name)
	if err != nil || !same(gv.Values, full) {
		return keyErr("getvariable", "GetVariable: %v, want %s", err, show(full))
	}
	per := int64(sz)
	for i, s := range shape {
		if i > 0 {
			per *= s
		}
	}
	n := vg.Len()
	if len(shape) > 0 {
		for b := int64(0); b <= n; b++ {
			for e := b; e <= n; e++ {
				sh := append([]int64{}, shape...)
				sh[0] = e - b
				want := mk(typ, sh, raw[b*per:e*per])
				got, err := vg.GetSlice(b, e)
				if err != nil {
					return keyErr("slice", "GetSlice(%d,%d): %v", b, e, err)
				}
				if !same(got, want) {
					return keyErr("slice", "GetSlice(%d,%d) = %s, want %s", b, e, show(got), show(want))
				}
			}
		}
	} else {
		got, err := vg.GetSlice(0, 1)
		if err != nil || !same(got, full) {
			return keyErr("slice", "GetSlice(0,1) of a scalar: %v %s", err, show(got))
		}
	}
	bad := [][2]int64{{0, n + 1}, {n, n + 1}, {-1, 0}, {-1, n}, {n + 1, n + 1}, {n + 5, n + 9}, {1 << 40, 1<<40 + 1}, {-3, -2}}
	if n > 0 {
		bad = append(bad, [2]int64{1, 0}, [2]int64{n, 0})
	}
	for _, be := range bad {
		var got any
		err := protect(func() error { var e error; got, e = vg.GetSlice(be[0], be[1]); return e })
		if err == nil {
			return keyErr("slice-bounds", "GetSlice(%d,%d) of length %d succeeds with %s", be[0], be[1], n, show(got))
		}
		if isPanic(err) {
			return keyErr("slice-bounds", "GetSlice(%d,%d) of length %d: %v", be[0], be[1], n, err)
		}
	}
	// blocks
	total := int64(1)
	for _, s := range shape {
		total *= (s + 1) * (s + 2) / 2
	}
	step := total/60 + 1
	for k := int64(0); k < total; k += step {
		x := k
		begin := make([]int64, len(shape))
		end := make([]int64, len(shape))
		for i, s := range shape {
			c := (s + 1) * (s + 2) / 2
			p := x % c
			x /= c
			for b := int64(0); ; b++ {
				if p <= s-b {
					begin[i], end[i] = b, b+p
					break
				}
				p -= s - b + 1
			}
		}
		sh := make([]int64, len(shape))
		for i := range sh {
			sh[i] = end[i] - begin[i]
		}
		want := mk(typ, sh, subRaw(raw, sz, shape, begin, end))
		var got any
		err := protect(func() error { var e error; got, e = vg.GetSliceMD(begin, end); return e })
		if err != nil {
			return keyErr("slicemd", "GetSliceMD(%v,%v): %v", begin, end, err)
		}
		if typ == ncChar && len(shape) > 0 && sh[len(sh)-1] == 0 || typ != ncChar || true {
			if !sameBlock(got, want) {
				return keyErr("slicemd", "GetSliceMD(%v,%v) = %s, want %s", begin, end, show(got), show(want))
			}
		}
	}
	for i := range shape {
		for _, m := range [][2]int64{{0, shape[i] + 1}, {-1, shape[i]}, {shape[i] + 1, shape[i] + 1}, {1, 0}} {
			begin := make([]int64, len(shape))
			end := append([]int64{}, shape...)
			begin[i], end[i] = m[0], m[1]
			var got any
			err := protect(func() error { var e error; got, e = vg.GetSliceMD(begin, end); return e })
			if err == nil {
				return keyErr("slicemd-bounds", "GetSliceMD(%v,%v) of shape %v succeeds with %s", begin, end, shape, show(got))
			}
			if isPanic(err) {
				return keyErr("slicemd-bounds", "GetSliceMD(%v,%v) of shape %v: %v", begin, end, shape, err)
			}
		}
	}
	err = protect(func() error {
		_, e := vg.GetSliceMD(make([]int64, len(shape)+1), make([]int64, len(shape)+1))
		return e
	})
	if err == nil || isPanic(err) {
		return keyErr("slicemd-bounds", "GetSliceMD with %d bounds for %d dimensions: %v", len(shape)+1, len(shape), err)
	}
	return nil
}

// sameBlock: equal, where an empty block may have lost its inner structure
func sameBlock(a, b any) bool {
	return same(a, b)
}

func (r *Run) recsPath() string { return filepath.Join(r.dir, "t.nc") }

func ncFiles(part, what string, quickN, thoroughN int) func(*Run) {
	return func(r *Run) {
		for i := 0; i < r.n(quickN, thoroughN) && !r.expired(); i++ {
			f := r.randNC()
			b := f.encode(int64(4*r.rng.Intn(2)), []byte{0, 0xAB}[r.rng.Intn(2)])
			r.cur = f.describe()
			if i%50 == 0 {
				if _, err := ncDecode(b); err != nil {
					panic("own encoder and decoder disagree: " + err.Error())
				}
			}
			p := r.write("t.nc", b)
			r.Case(part, fmt.Sprintf("%s #%x", f.describe(), b))
			if err := protect(func() error { return checkNCFile(p, f, what) }); err != nil {
				r.Fail(keyOf(err, part), err.Error()+" in "+f.describe(), b)
			}
		}
	}
}

func init() {
	register("C03", ncFiles("read-classic", "read", 12000, 200000))
	register("C04", ncFiles("slice-classic", "slices", 6000, 100000))
	register("A02", ncFiles("types-classic", "types", 600, 10000))
	register("C05", cdfFill)
	register("C01", cdfWrite("roundtrip"))
	register("C02", cdfWrite("wellformed"))
}

var defFill = map[int]uint64{ncByte: 0x81, ncChar: 0, ncShort: 0x8001, ncInt: 0x80000001, ncFloat: 0x7cf00000,
	ncDouble: 0x479e000000000000, ncUByte: 255, ncUShort: 65535, ncUInt: 4294967295,
	ncInt64: 0x8000000000000002, ncUInt64: 0xfffffffffffffffe}

func beBytes(u uint64, w int) []byte {
	b := make([]byte, 8)
	binary.BigEndian.PutUint64(b, u)
	return b[8-w:]
}

// cdfFill: files cut short in the data area; the rest reads as the fill value.
func cdfFill(r *Run) {
	for i := 0; i < r.n(4000, 60000) && !r.expired(); i++ {
		f := r.randNC()
		fv := map[*ncVar][]byte{}
		for _, v := range f.vars {
			fv[v] = beBytes(defFill[v.typ], ncSize[v.typ])
			if r.rng.Intn(2) == 0 {
				a := ncAtt{name: "_FillValue", typ: v.typ, raw: randBytes(r.rng, int64(ncSize[v.typ]))}
				if v.typ == ncFloat || v.typ == ncDouble {
					fixNaN(a.raw, ncSize[v.typ])
				}
				if v.typ == ncChar {
					a.raw[0] = byte('A' + r.rng.Intn(26))
				}
				v.atts = append(v.atts, a)
				fv[v] = a.raw
			}
		}
		b := f.encode(0, 0xAB)
		hdr := f.headerLen()
		// cut anywhere in the data area, also in the middle of an element
		cut := hdr + r.rng.Int63n(int64(len(b))-hdr+1)
		if r.rng.Intn(6) == 0 {
			cut = hdr
		}
		if r.rng.Intn(4) == 0 { // a long variable, so that reads come in several chunks
			f = &ncFile{version: 5}
			f.dims = []ncDim{{"n", int64(3000 + r.rng.Intn(3000))}}
			v := &ncVar{name: "big", typ: 1 + r.rng.Intn(11), dims: []int{0}}
			v.raw = randBytes(r.rng, f.total(v)*int64(ncSize[v.typ]))
			if v.typ == ncFloat || v.typ == ncDouble {
				fixNaN(v.raw, ncSize[v.typ])
			}
			fv[v] = beBytes(defFill[v.typ], ncSize[v.typ])
			f.vars = []*ncVar{v}
			b = f.encode(0, 0)
			hdr = f.headerLen()
			cut = hdr + r.rng.Int63n(int64(len(b))-hdr+1)
		}
		short := b[:cut]
		// a partly stored element counts as missing only in its missing bytes; keep the
		// question out: cut at element boundaries of every variable it hits
		ok := true
		for _, v := range f.vars {
			w := int64(ncSize[v.typ])
			n := f.perRec(v) * w
			reps := int64(1)
			if f.isRec(v) {
				reps = f.numrecs
			}
			for k := int64(0); k < reps; k++ {
				at := v.begin + k*f.recsize
				if cut > at && cut < at+n && (cut-at)%w != 0 {
					ok = false
				}
				for e := int64(0); e < n/w; e++ {
					if at+e*w >= cut {
						copy(v.raw[k*n+e*w:], fv[v])
					}
				}
			}
		}
		if !ok {
			continue
		}
		p := r.write("t.nc", short)
		r.cur = f.describe()
		r.Case("truncated-classic", fmt.Sprintf("%s cut at %d of %d #%x", f.describe(), cut, len(b), b[:min(len(b), 2000)]))
		if err := protect(func() error { return checkFill(p, f) }); err != nil {
			r.Fail(keyOf(err, "truncated"), fmt.Sprintf("%v in %s cut at %d of %d", err, f.describe(), cut, len(b)), short)
		}
	}
}

func checkFill(path string, f *ncFile) error {
	g, err := cdf.Open(path)
	if err != nil {
		return fmt.Errorf("open: %v", err)
	}
	defer g.Close()
	for _, v := range f.vars {
		key := "fill"
		if f.isRec(v) {
			key = "fill-record"
		} else if v.typ == ncChar {
			for _, a := range v.atts {
				if a.name == "_FillValue" {
					key = "fill-char-attr"
				}
			}
		}
		want := buildNC(v.typ, f.shape(v), v.raw)
		var gv *api.Variable
		err := protect(func() error { var e error; gv, e = g.GetVariable(v.name); return e })
		if err != nil {
			return keyErr(key, "GetVariable(%q %s): %v", v.name, ncCDL[v.typ], err)
		}
		if !same(gv.Values, want) {
			return keyErr(key, "variable %q (%s): %s, want %s", v.name, ncCDL[v.typ], show(gv.Values), show(want))
		}
	}
	return nil
}

// ---- writer

type wVar struct {
	name string
	val  any
	dims []string
	atts []wAtt
	typ  int
	shp  []int64
	raw  []byte
}
type wAtt struct {
	name string
	val  any
	enc  ncAtt
}

func (r *Run) wAtts(max int, v5 bool) []wAtt {
	ver := 2
	if v5 {
		ver = 5
	}
	var out []wAtt
	for _, a := range r.randAtts(ver, max) {
		var v any
		if a.typ == ncChar {
			v = string(a.raw)
		} else {
			n := len(a.raw) / ncSize[a.typ]
			if n == 1 && r.rng.Intn(2) == 0 {
				v = goScalar(a.typ, a.raw)
			} else {
				sz := ncSize[a.typ]
				v = build(goTypeOf[ncGo[a.typ]], []int64{int64(n)}, func(i int) any { return goScalar(a.typ, a.raw[i*sz:]) })
			}
		}
		out = append(out, wAtt{a.name, v, a})
	}
	return out
}

func encAtts(as []wAtt) []ncAtt {
	var out []ncAtt
	for _, a := range as {
		out = append(out, a.enc)
	}
	return out
}

// randModel: what a user could ask the CDF writer for.
func (r *Run) wModel() ([]wVar, []wAtt, map[string]int64, []string) {
	v5 := r.rng.Intn(2) == 0
	dims := map[string]int64{}
	var order []string
	used := map[string]bool{}
	var vars []wVar
	for k := r.rng.Intn(6); k > 0; k-- {
		w := wVar{name: r.name(used), typ: 1 + r.rng.Intn(6)}
		if v5 {
			w.typ = 1 + r.rng.Intn(11)
		}
		nd := r.rng.Intn(4)
		if r.rng.Intn(8) == 0 {
			nd = 4
		}
		named := r.rng.Intn(3) != 0
		for i := 0; i < nd; i++ {
			var dn string
			var l int64
			if len(order) > 0 && r.rng.Intn(2) == 0 {
				dn = order[r.rng.Intn(len(order))]
				l = dims[dn]
			} else {
				dn = fmt.Sprintf("d%d", len(order))
				l = int64(1 + r.rng.Intn(5))
				if r.rng.Intn(12) == 0 && nd == 1 && w.typ != ncChar {
					l = 0
				}
			}
			if l == 0 && nd != 1 {
				l = 3
				dn = fmt.Sprintf("d%d", len(order))
			}
			if l == 0 && w.typ == ncChar {
				l = 2
				dn = fmt.Sprintf("d%d", len(order))
			}
			if _, has := dims[dn]; !has && named {
				dims[dn] = l
				order = append(order, dn)
			}
			if !named {
				l = int64(1 + r.rng.Intn(5))
			}
			w.shp = append(w.shp, l)
			if named {
				w.dims = append(w.dims, dn)
			}
		}
		// at most one record dimension in all
		w.atts = r.wAtts(3, v5)
		n := int64(1)
		for _, l := range w.shp {
			n *= l
		}
		w.raw = randBytes(r.rng, n*int64(ncSize[w.typ]))
		if w.typ == ncFloat || w.typ == ncDouble {
			fixNaN(w.raw, ncSize[w.typ])
		}
		if w.typ == ncChar {
			for i := range w.raw {
				w.raw[i] = byte(33 + int(w.raw[i])%90)
			}
		}
		if w.typ == ncChar && len(w.shp) == 1 && w.shp[0] == 1 && !named {
			w.shp = nil // a one-character string without dimensions is a scalar
		}
		w.val = buildNC(w.typ, w.shp, w.raw)
		if w.typ == ncChar && len(w.shp) > 1 {
			w.val = r.shorten(&w)
		}
		vars = append(vars, w)
	}
	return vars, r.wAtts(4, v5), dims, order
}

// shorten: make some of the strings shorter than the dimension (they are padded with NULs)
func (r *Run) shorten(w *wVar) any {
	n := int(w.shp[len(w.shp)-1])
	rows := len(w.raw) / n
	keep := r.rng.Intn(rows) // this row stays full length
	strs := make([]string, rows)
	for i := range strs {
		l := n
		if i != keep && r.rng.Intn(2) == 0 {
			l = r.rng.Intn(n + 1)
		}
		strs[i] = string(w.raw[i*n : i*n+l])
		for j := l; j < n; j++ {
			w.raw[i*n+j] = 0
		}
	}
	return build(reflect.TypeOf(""), w.shp[:len(w.shp)-1], func(i int) any { return strs[i] })
}

func hasRec(vars []wVar) (n int) {
	seen := map[string]bool{}
	for _, v := range vars {
		if len(v.shp) > 0 && v.shp[0] == 0 && !seen[v.dims[0]] {
			seen[v.dims[0]] = true
			n++
		}
	}
	return n
}

func omap(as []wAtt) api.AttributeMap {
	keys := []string{}
	vals := map[string]any{}
	for _, a := range as {
		keys = append(keys, a.name)
		vals[a.name] = a.val
	}
	return mustMap(keys, vals)
}

func cdfWriteFile(path string, vars []wVar, atts []wAtt) error {
	w, err := openWriter("cdf", path)
	if err != nil {
		return err
	}
	if len(atts) > 0 {
		if err := w.AddAttributes(omap(atts)); err != nil {
			w.Close()
			return fmt.Errorf("AddAttributes: %w", err)
		}
	}
	for _, v := range vars {
		if err := w.AddVar(v.name, api.Variable{Values: v.val, Dimensions: append([]string{}, v.dims...), Attributes: omap(v.atts)}); err != nil {
			w.Close()
			return fmt.Errorf("AddVar(%q): %w", v.name, err)
		}
	}
	return w.Close()
}

func describeW(vars []wVar, atts []wAtt) string {
	var sb strings.Builder
	for _, v := range vars {
		fmt.Fprintf(&sb, "%q %s%v dims%q atts[", v.name, ncCDL[v.typ], v.shp, v.dims)
		for _, a := range v.atts {
			fmt.Fprintf(&sb, "%T,", a.val)
		}
		sb.WriteString("] ")
	}
	sb.WriteString("global[")
	for _, a := range atts {
		fmt.Fprintf(&sb, "%T,", a.val)
	}
	return sb.String() + "]"
}

func needsV5(vars []wVar, atts []wAtt) bool {
	for _, v := range vars {
		if v.typ >= ncUByte {
			return true
		}
		for _, a := range v.atts {
			if a.enc.typ >= ncUByte {
				return true
			}
		}
	}
	for _, a := range atts {
		if a.enc.typ >= ncUByte {
			return true
		}
	}
	return false
}

func cdfWrite(mode string) func(*Run) {
	return func(r *Run) {
		for i := 0; i < r.n(12000, 200000) && !r.expired(); i++ {
			vars, atts, _, _ := r.wModel()
			if hasRec(vars) > 1 {
				continue
			}
			desc := describeW(vars, atts)
			r.cur = desc
			p := r.recsPath()
			key := "write"
			v5 := needsV5(vars, nil) != needsV5(vars, atts)
			if v5 {
				key = "v5-global-attr"
			}
			if hasRec(vars) > 0 {
				key = "empty-record-var"
			}
			err := protect(func() error { return cdfWriteFile(p, vars, atts) })
			b, _ := os.ReadFile(p)
			r.Case("write-"+mode, desc+fmt.Sprintf("#%x", b))
			if err != nil {
				r.Fail(key+"-refused", fmt.Sprintf("refused: %v: %s", err, desc), nil)
				continue
			}
			if mode == "wellformed" {
				f, err := ncDecode(b)
				if err == nil {
					err = compareModel(f, vars, atts)
				}
				if err == nil {
					want := 2
					if needsV5(vars, atts) {
						want = 5
					}
					if f.version != want {
						err = fmt.Errorf("version %d, want %d", f.version, want)
					}
				}
				if err == nil && len(vars) > 0 { // nothing but the data follows
					end := f.headerLen()
					for _, v := range f.vars {
						if v.begin < end && !f.isRec(v) {
							err = fmt.Errorf("variable %q begins at %d, want at least %d", v.name, v.begin, end)
						}
						if !f.isRec(v) {
							for k := v.begin + int64(len(v.raw)); k < v.begin+v.vsize; k++ {
								if k >= int64(len(b)) || b[k] != 0 {
									err = fmt.Errorf("variable %q: padding byte at %d is missing or not zero", v.name, k)
								}
							}
						}
					}
				}
				if err != nil {
					r.Fail(key, fmt.Sprintf("%v: %s", err, desc), b)
				}
				continue
			}
			if err := protect(func() error { return checkWritten(p, vars, atts) }); err != nil {
				r.Fail(key, fmt.Sprintf("%v: %s", err, desc), b)
			}
		}
	}
}

// compareModel: what the independent decoder found against what was asked for
func compareModel(f *ncFile, vars []wVar, atts []wAtt) error {
	if err := cmpAtts(f.atts, encAtts(atts)); err != nil {
		return fmt.Errorf("global attributes: %v", err)
	}
	if len(f.vars) != len(vars) {
		return fmt.Errorf("%d variables, want %d", len(f.vars), len(vars))
	}
	for i, v := range vars {
		g := f.vars[i]
		if g.name != v.name || g.typ != v.typ {
			return fmt.Errorf("variable %d is %q %d, want %q %d", i, g.name, g.typ, v.name, v.typ)
		}
		if !same(f.shape(g), append([]int64{}, v.shp...)) {
			return fmt.Errorf("variable %q has shape %v, want %v", v.name, f.shape(g), v.shp)
		}
		if len(v.dims) > 0 && !same(dimNamesOf(f, g), v.dims) {
			return fmt.Errorf("variable %q has dimensions %v, want %v", v.name, dimNamesOf(f, g), v.dims)
		}
		if err := cmpAtts(g.atts, encAtts(v.atts)); err != nil {
			return fmt.Errorf("variable %q: %v", v.name, err)
		}
		if string(g.raw) != string(v.raw) {
			return fmt.Errorf("variable %q: data %x at %d, want %x", v.name, g.raw, g.begin, v.raw)
		}
	}
	return nil
}

func cmpAtts(got, want []ncAtt) error {
	if len(got) != len(want) {
		return fmt.Errorf("%d attributes, want %d", len(got), len(want))
	}
	for i := range got {
		if got[i].name != want[i].name || got[i].typ != want[i].typ || string(got[i].raw) != string(want[i].raw) {
			return fmt.Errorf("attribute %d: %v, want %v", i, got[i], want[i])
		}
	}
	return nil
}

func checkWritten(p string, vars []wVar, atts []wAtt) error {
	g, err := cdf.Open(p)
	if err != nil {
		return fmt.Errorf("open: %v", err)
	}
	defer g.Close()
	names := []string{}
	for _, v := range vars {
		names = append(names, v.name)
	}
	if !same(append([]string{}, g.ListVariables()...), names) {
		return fmt.Errorf("variables %q, want %q", g.ListVariables(), names)
	}
	if err := checkAtts(g.Attributes(), encAtts(atts)); err != nil {
		return fmt.Errorf("global %v", err)
	}
	for _, v := range vars {
		gv, err := g.GetVariable(v.name)
		if err != nil {
			return fmt.Errorf("GetVariable(%q): %v", v.name, err)
		}
		want := buildNC(v.typ, v.shp, v.raw)
		if !same(gv.Values, want) {
			return fmt.Errorf("variable %q: %s, want %s", v.name, show(gv.Values), show(want))
		}
		if len(v.dims) > 0 && !same(append([]string{}, gv.Dimensions...), v.dims) {
			return fmt.Errorf("variable %q: dimensions %v, want %v", v.name, gv.Dimensions, v.dims)
		}
		if len(gv.Dimensions) != len(v.shp) {
			return fmt.Errorf("variable %q: %d dimensions, want %d", v.name, len(gv.Dimensions), len(v.shp))
		}
		if err := checkAtts(gv.Attributes, encAtts(v.atts)); err != nil {
			return fmt.Errorf("variable %q %v", v.name, err)
		}
	}
	return nil
}

var _ = math.Pi
