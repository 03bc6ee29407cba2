package main

import (
	"bytes"
	"compress/zlib"
	"encoding/hex"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/batchatco/go-native-netcdf/netcdf/api"
	"github.com/batchatco/go-native-netcdf/netcdf/hdf5"
)

// HDF5 files made with the C library, for the reader.

type rAtt struct {
	null bool // a null dataspace; dims is then [0]
	name string
	t    *hT
	dims []int64
	vals []any
}

type rVar struct {
	name   string
	t      *hT
	dims   []int64
	layout string
	chunk  []int64
	filts  []string
	fill   string // default undef value
	fillV  any
	vals   []any
	atts   []*rAtt
	steps  []string // description of what was written
	dimNm  []string // names of dimensions, when the file has dimension scales
	scale  bool     // a dimension scale without a variable
}

type rGroup struct {
	name, path string
	subs       []*rGroup
	vars       []*rVar
	types      []*hT
	atts       []*rAtt
}

type rFile struct {
	tool   *H5Tool
	path   string
	lib    string // old v18 latest
	root   *rGroup
	gen    int
	nextID int
	rng    *rand.Rand
	last   []byte // the chunk written last
}

var rGen int

func (g *rGroup) walk(f func(*rGroup)) {
	f(g)
	for _, s := range g.subs {
		s.walk(f)
	}
}

func (v *rVar) String() string {
	s := fmt.Sprintf("%q %v dims %v %s", v.name, v.t, v.dims, v.layout)
	if v.layout == "chunked" {
		s += fmt.Sprintf("%v filters %v", v.chunk, v.filts)
	}
	return s + " fill " + v.fill + " " + strings.Join(v.steps, " ")
}

func (f *rFile) String() string {
	var b strings.Builder
	b.WriteString(f.lib)
	f.root.walk(func(g *rGroup) {
		fmt.Fprintf(&b, "\ngroup %s", g.path)
		for _, t := range g.types {
			fmt.Fprintf(&b, "\n type %v", t)
		}
		for _, a := range g.atts {
			fmt.Fprintf(&b, "\n att %q %v %v", a.name, a.t, a.dims)
		}
		for _, v := range g.vars {
			fmt.Fprintf(&b, "\n var %v", v)
			for _, a := range v.atts {
				fmt.Fprintf(&b, "\n  att %q %v %v", a.name, a.t, a.dims)
			}
		}
	})
	return b.String()
}

func (r *Run) newRFile(t *H5Tool, lib string, track bool, phases [4]int, userblock int) *rFile {
	rGen++
	f := &rFile{tool: t, path: filepath.Join(r.dir, "r.h5"), lib: lib, gen: rGen, rng: r.rng, root: &rGroup{path: "/"}}
	tr := 0
	if track {
		tr = 1
	}
	t.gen("create %s %s %d %d %d %d %d %d", pct(f.path), lib, tr, phases[0], phases[1], phases[2], phases[3], userblock)
	return f
}

func (f *rFile) close() { f.tool.gen("close") }

func join(n []int64) string {
	s := ""
	for _, x := range n {
		s += fmt.Sprintf(" %d", x)
	}
	return s
}

func (f *rFile) attr(obj string, a *rAtt) {
	id := f.define(a.t)
	if a.null {
		f.tool.gen("attr %s %s %d -1", pct(obj), pct(a.name), id)
		return
	}
	f.tool.gen("attr %s %s %d %d%s%s", pct(obj), pct(a.name), id, len(a.dims), join(a.dims), a.t.toks(a.vals))
}

func (f *rFile) group(g *rGroup, track bool, ph [4]int) {
	tr := 0
	if track {
		tr = 1
	}
	f.tool.gen("group %s %d %d %d %d %d", pct(g.path), tr, ph[0], ph[1], ph[2], ph[3])
}

func (f *rFile) commit(g *rGroup, t *hT) {
	id := f.define(t)
	f.tool.gen("commit %d %s", id, pct(join2(g.path, t.named)))
	g.types = append(g.types, t)
}

func join2(p, n string) string {
	if p == "/" {
		return "/" + n
	}
	return p + "/" + n
}

func (f *rFile) dset(g *rGroup, v *rVar, unlimited bool, alloc, ftime string, track int, ph [2]int) {
	id := f.define(v.t)
	max := ""
	for _, d := range v.dims {
		if unlimited {
			max += " -1"
		} else {
			max += fmt.Sprintf(" %d", d)
		}
	}
	ch := ""
	if v.layout == "chunked" {
		ch = join(v.chunk)
	}
	fill := v.fill
	if fill == "value" {
		fill += v.t.toks([]any{v.fillV})
	}
	fs := ""
	for _, x := range v.filts {
		fs += " " + x
	}
	f.tool.gen("dset %s %d %d%s%s %s%s %d%s %s %s %s %d %d %d", pct(join2(g.path, v.name)), id, len(v.dims), join(v.dims), max, v.layout, ch, len(v.filts), fs, fill, alloc, ftime, track, ph[0], ph[1])
	g.vars = append(g.vars, v)
}

// missing: the value of elements never written
func (v *rVar) missing() any {
	switch v.fill {
	case "value":
		return v.fillV
	case "undef":
		if v.t.kind == "int" || v.t.kind == "float" {
			return ncFill(v.t)
		}
		if v.t.kind == "str" || v.t.kind == "vstr" || v.t.kind == "vlen" {
			return v.t.zeroVal()
		}
		return nil // not specified
	}
	return v.t.zeroVal()
}

func ncFill(t *hT) any {
	if t.kind == "float" {
		le := &hT{kind: "float", size: t.size}
		if t.size == 4 {
			return numFrom(le, []byte{0, 0, 0xf0, 0x7c})
		}
		return numFrom(le, []byte{0, 0, 0, 0, 0, 0, 0x9e, 0x47})
	}
	le := &hT{kind: "int", size: t.size, signed: t.signed}
	put := func(x uint64) any {
		b := make([]byte, 8)
		for i := range b {
			b[i] = byte(x >> (8 * i))
		}
		return numFrom(le, b)
	}
	neg := func(x int64) any { return put(uint64(-x)) }
	switch {
	case t.size == 1 && t.signed:
		return neg(127)
	case t.size == 1:
		return put(255)
	case t.size == 2 && t.signed:
		return neg(32767)
	case t.size == 2:
		return put(65535)
	case t.size == 4 && t.signed:
		return neg(2147483647)
	case t.size == 4:
		return put(4294967295)
	case t.signed:
		return neg(9223372036854775806)
	}
	return put(0xfffffffffffffffe)
}

func eachIn(start, count []int64, f func(c []int64)) {
	if prod(count) == 0 {
		return
	}
	c := append([]int64{}, start...)
	for {
		f(c)
		k := len(c) - 1
		for ; k >= 0; k-- {
			c[k]++
			if c[k] < start[k]+count[k] {
				break
			}
			c[k] = start[k]
		}
		if k < 0 {
			return
		}
	}
}

func flat(dims, c []int64) int64 {
	o := int64(0)
	for i := range dims {
		o = o*dims[i] + c[i]
	}
	return o
}

// write a block of new random values
func (f *rFile) write(r *Run, g *rGroup, v *rVar, start, count []int64) {
	var vals []any
	eachIn(start, count, func(c []int64) {
		x := r.genVal(v.t)
		vals = append(vals, x)
		v.vals[flat(v.dims, c)] = x
	})
	f.tool.gen("write %s%s%s%s", pct(join2(g.path, v.name)), join(start), join(count), v.t.toks(vals))
	v.steps = append(v.steps, fmt.Sprintf("w%v+%v", start, count))
}

// wchunk stores a chunk filtered here, with the given filter mask
func (f *rFile) wchunk(r *Run, g *rGroup, v *rVar, start []int64, mask int) {
	var raw []byte
	eachIn(start, v.chunk, func(c []int64) {
		in := true
		for i := range c {
			in = in && c[i] < v.dims[i]
		}
		x := r.genVal(v.t)
		if in {
			v.vals[flat(v.dims, c)] = x
		}
		raw = append(raw, v.t.rawBytes(x)...)
	})
	if v.t.kind == "int" && r.rng.Intn(6) == 0 {
		// sums that are multiples of 65535, and the like
		for i := range raw {
			raw[i] = []byte{0, 0xff}[r.rng.Intn(2)]
			if r.rng.Intn(3) > 0 {
				raw[i] = raw[0]
			}
		}
		i := 0
		eachIn(start, v.chunk, func(c []int64) {
			in := true
			for k := range c {
				in = in && c[k] < v.dims[k]
			}
			if in {
				v.vals[flat(v.dims, c)] = numFrom(v.t, raw[i*v.t.size:])
			}
			i++
		})
	}
	for i, x := range v.filts {
		if mask>>i&1 == 1 {
			continue
		}
		switch x[0] {
		case 's':
			raw = shuffleBytes(raw, v.t.msize())
		case 'd':
			var b bytes.Buffer
			w := zlib.NewWriter(&b)
			w.Write(raw)
			w.Close()
			raw = b.Bytes()
		case 'f':
			raw = append(raw, fletcher(raw)...)
		}
	}
	f.last = raw
	f.tool.gen("wchunk %s %d%s %d %s", pct(join2(g.path, v.name)), len(start), join(start), mask, hex.EncodeToString(raw))
	v.steps = append(v.steps, fmt.Sprintf("chunk%v mask %d", start, mask))
}

// shuffleBytes: the HDF5 shuffle filter
func shuffleBytes(b []byte, n int) []byte {
	if n <= 1 || len(b) < n {
		return b
	}
	out := make([]byte, 0, len(b))
	ne := len(b) / n
	for k := 0; k < n; k++ {
		for e := 0; e < ne; e++ {
			out = append(out, b[e*n+k])
		}
	}
	return append(out, b[ne*n:]...)
}

// fletcher: the four stored bytes of the HDF5 Fletcher-32 checksum
func fletcher(b []byte) []byte {
	var s1, s2 uint32
	add := func(w uint32) {
		s1 += w
		s2 += s1
		s1 = s1&0xffff + s1>>16
		s2 = s2&0xffff + s2>>16
	}
	for i := 0; i+1 < len(b); i += 2 {
		add(uint32(b[i])<<8 | uint32(b[i+1]))
	}
	if len(b)%2 == 1 {
		add(uint32(b[len(b)-1]) << 8)
	}
	s1 = s1&0xffff + s1>>16
	s2 = s2&0xffff + s2>>16
	x := s2<<16 | s1
	return []byte{byte(x), byte(x >> 8), byte(x >> 16), byte(x >> 24)}
}

// ---- random variables

type vOpts struct {
	t          tOpts
	typ        *hT
	layouts    []string
	maxRank    int
	filters    bool
	raw        bool
	alwaysFull bool
	zero       bool
	bigDims    bool
	unwritten  bool // often leave storage missing
}

func (f *rFile) randVar(r *Run, g *rGroup, name string, o vOpts) *rVar {
	v := &rVar{name: name, t: o.typ}
	if v.t == nil {
		v.t = r.genType(o.t)
	}
	v.layout = o.layouts[r.rng.Intn(len(o.layouts))]
	rank := r.rng.Intn(o.maxRank + 1)
	if v.layout == "chunked" && rank == 0 {
		rank = 1
	}
	v.dims = []int64{}
	for i := 0; i < rank; i++ {
		n := int64(1 + r.rng.Intn(6))
		if o.bigDims && rank < 3 {
			n = int64(1 + r.rng.Intn(30))
		}
		if o.zero && r.rng.Intn(25) == 0 {
			n = 0
		}
		v.dims = append(v.dims, n)
	}
	if v.layout == "compact" && prod(v.dims)*int64(v.t.msize()) > 25000 {
		v.layout = "contig"
	}
	unlimited := false
	if v.layout == "chunked" {
		unlimited = r.rng.Intn(2) == 0 || prod(v.dims) == 0
		for _, d := range v.dims {
			c := int64(1 + r.rng.Intn(5))
			if !unlimited && c > d {
				c = d
			}
			if r.rng.Intn(4) == 0 && d > 0 {
				c = d
			}
			v.chunk = append(v.chunk, c)
		}
		if o.filters {
			for _, x := range []string{"s", "d", "f"} {
				if r.rng.Intn(2) == 0 {
					if x == "f" && (v.t.kind == "vlen" || v.t.kind == "vstr") {
						continue // the library refuses it
					}
					if x == "d" {
						x = fmt.Sprintf("d%d", 1+r.rng.Intn(9))
					}
					v.filts = append(v.filts, x)
				}
			}
			r.rng.Shuffle(len(v.filts), func(i, j int) { v.filts[i], v.filts[j] = v.filts[j], v.filts[i] })
		}
	}
	v.fill = "default"
	if !v.t.hasV() {
		switch r.rng.Intn(4) {
		case 0, 1:
			v.fill = "value"
			v.fillV = r.genVal(v.t)
		case 2:
			v.fill = "undef"
		}
	}
	if v.fill == "undef" && v.missing() == nil {
		v.fill = "default"
	}
	alloc := r.pick("default", "early", "late", "incr")
	if v.layout == "compact" {
		alloc = "early"
	} else if alloc == "incr" && v.layout == "contig" {
		alloc = "late"
	}
	ftime := r.pick("ifset", "ifset", "alloc")
	if v.fill == "undef" {
		ftime = "ifset"
	}
	full := o.alwaysFull || v.t.hasV() && v.layout != "chunked"
	if v.layout != "chunked" && v.fill != "value" {
		// the library does not fill such storage
		full = true
	}
	never := !o.alwaysFull && v.layout != "compact" && r.rng.Intn(8) == 0
	if o.unwritten && v.layout != "compact" && r.rng.Intn(2) == 0 {
		never = true
	}
	if never && (alloc == "early" || v.fill == "undef") {
		alloc = "late"
	}
	if v.fill == "undef" && v.layout == "chunked" {
		alloc = "incr"
	}
	v.vals = make([]any, prod(v.dims))
	for i := range v.vals {
		v.vals[i] = v.missing()
	}
	dims := v.dims
	if unlimited && r.rng.Intn(3) == 0 {
		// smaller at first, extended later
		dims = append([]int64{}, v.dims...)
		for i := range dims {
			dims[i] = int64(r.rng.Intn(int(dims[i]) + 1))
		}
	}
	save := v.dims
	v.dims = dims
	f.dset(g, v, unlimited, alloc, ftime, r.rng.Intn(2), [2]int{-1, -1})
	v.dims = save
	if fmt.Sprint(dims) != fmt.Sprint(save) {
		f.tool.gen("extend %s %d%s", pct(join2(g.path, v.name)), len(save), join(save))
		v.steps = append(v.steps, fmt.Sprintf("extended from %v", dims))
	}
	if never || prod(v.dims) == 0 {
		return v
	}
	zeros := make([]int64, rank)
	if full && v.layout != "chunked" || r.rng.Intn(3) == 0 && !(o.raw && v.layout == "chunked") {
		f.write(r, g, v, zeros, v.dims)
		return v
	}
	if v.layout != "chunked" {
		for k := 1 + r.rng.Intn(3); k > 0; k-- {
			st, ct := r.randBlock(v.dims)
			f.write(r, g, v, st, ct)
		}
		return v
	}
	// some of the chunks, in any order
	var grid []int64
	for i := range v.dims {
		grid = append(grid, (v.dims[i]+v.chunk[i]-1)/v.chunk[i])
	}
	var cs [][]int64
	eachIn(zeros, grid, func(c []int64) { cs = append(cs, append([]int64{}, c...)) })
	r.rng.Shuffle(len(cs), func(i, j int) { cs[i], cs[j] = cs[j], cs[i] })
	keep := 1 + r.rng.Intn(len(cs))
	if o.alwaysFull || r.rng.Intn(3) == 0 {
		keep = len(cs)
	}
	for _, c := range cs[:keep] {
		st, ct := make([]int64, rank), make([]int64, rank)
		for i := range c {
			st[i] = c[i] * v.chunk[i]
			ct[i] = v.chunk[i]
			if st[i]+ct[i] > v.dims[i] {
				ct[i] = v.dims[i] - st[i]
			}
		}
		if o.raw && !v.t.hasV() && r.rng.Intn(4) > 0 {
			mask := 0
			// (rewriting a chunk that is there already, the library does not change its mask)
			for i := range v.filts {
				if r.rng.Intn(4) == 0 && (alloc == "incr" || alloc == "default") {
					mask |= 1 << i
				}
			}
			f.wchunk(r, g, v, st, mask)
			continue
		}
		f.write(r, g, v, st, ct)
	}
	return v
}

func (r *Run) randBlock(dims []int64) (st, ct []int64) {
	for _, d := range dims {
		a := int64(r.rng.Intn(int(d)))
		b := a + 1 + int64(r.rng.Intn(int(d-a)))
		st = append(st, a)
		ct = append(ct, b-a)
	}
	if st == nil {
		st, ct = []int64{}, []int64{}
	}
	return
}

func (r *Run) rRandAtts(n int, o tOpts) []*rAtt {
	used := map[string]bool{}
	var out []*rAtt
	for ; n > 0; n-- {
		a := &rAtt{name: r.name(used), t: r.genType(o), dims: []int64{}}
		switch r.rng.Intn(6) {
		case 0, 1:
			if r.rng.Intn(5) == 0 {
				// nothing in it: a null dataspace, as netCDF writes empty attributes, or no rows
				a.dims = append(a.dims, 0)
				a.null = r.rng.Intn(3) > 0
			}
		case 5:
			a.dims = append(a.dims, int64(1+r.rng.Intn(3)), int64(1+r.rng.Intn(3)))
		default:
			a.dims = append(a.dims, int64(1+r.rng.Intn(4)))
		}
		for i := prod(a.dims); i > 0; i-- {
			a.vals = append(a.vals, r.genVal(a.t))
		}
		out = append(out, a)
	}
	return out
}

// ---- checks

func rCheckAtts(where string, want []*rAtt, m api.AttributeMap) string {
	got := append([]string{}, m.Keys()...)
	var exp []string
	for _, a := range want {
		exp = append(exp, a.name)
	}
	sort.Strings(got)
	sort.Strings(exp)
	if fmt.Sprintf("%q", got) != fmt.Sprintf("%q", exp) {
		return fmt.Sprintf("%s: attributes %q, want %q", where, got, exp)
	}
	for _, a := range want {
		v, has := m.Get(a.name)
		e := a.t.expect(a.dims, a.vals).undo()
		if !has || !sameCn(canon(v), e) {
			return fmt.Sprintf("%s attribute %q (%v %v): %s, want %s", where, a.name, a.t, a.dims, clip(canon(v).String()), clip(e.String()))
		}
	}
	return ""
}

func clip(s string) string {
	if len(s) > 300 {
		return s[:300] + "..."
	}
	return s
}

func listName(t *hT, n int) string { return t.gnameDims(n) }

// subVals: the values of the block
func subVals(vals []any, dims, begin, end []int64) []any {
	var out []any
	ct := make([]int64, len(dims))
	for i := range dims {
		ct[i] = end[i] - begin[i]
	}
	eachIn(begin, ct, func(c []int64) { out = append(out, vals[flat(dims, c)]) })
	return out
}

type checkOpts struct {
	slices int
	dict   [2]map[string]string // type texts
	meta   bool
}

func (r *Run) rCheckVar(g api.Group, path string, v *rVar, o checkOpts) (key, msg string) {
	where := "variable " + path + "/" + v.name + " "
	full := v.t.expect(v.dims, v.vals)
	if o.slices > 0 && r.rng.Intn(4) > 0 {
		// slices before anything else has read the variable, of one getter or of fresh ones
		vg, err := g.GetVarGetter(v.name)
		if err != nil {
			return "get-getter", where + err.Error()
		}
		for i := r.rng.Intn(o.slices); i >= 0; i-- {
			if k, m := r.rSlice(vg, where, v); m != "" {
				return k, m
			}
			if r.rng.Intn(2) == 0 {
				vg, _ = g.GetVarGetter(v.name)
			}
		}
	}
	av, err := g.GetVariable(v.name)
	if err != nil {
		return "get-variable", where + err.Error()
	}
	if c := canon(av.Values); !sameCn(c, full) {
		return "value", where + clip(c.String()) + ", want " + clip(full.String())
	}
	if s := rCheckAtts(where, v.atts, av.Attributes); s != "" {
		return "attributes", s
	}
	if v.dimNm != nil && fmt.Sprintf("%q", av.Dimensions) != fmt.Sprintf("%q", v.dimNm) {
		return "dimensions", fmt.Sprintf("%sDimensions %q, want %q", where, av.Dimensions, v.dimNm)
	}
	vg, err := g.GetVarGetter(v.name)
	if err != nil {
		return "get-getter", where + err.Error()
	}
	if s := rCheckAtts(where+"(getter)", v.atts, vg.Attributes()); s != "" {
		return "attributes", s
	}
	n := int64(1)
	if len(v.dims) > 0 {
		n = v.dims[0]
	}
	if vg.Len() != n {
		return "len", fmt.Sprintf("%sLen %d, want %d", where, vg.Len(), n)
	}
	if fmt.Sprint(vg.Shape()) != fmt.Sprint(v.dims) {
		return "shape", fmt.Sprintf("%sShape %v, want %v", where, vg.Shape(), v.dims)
	}
	if v.dimNm != nil && fmt.Sprintf("%q", vg.Dimensions()) != fmt.Sprintf("%q", v.dimNm) {
		return "dimensions", fmt.Sprintf("%sgetter Dimensions %q, want %q", where, vg.Dimensions(), v.dimNm)
	}
	if o.meta {
		if e := v.t.text(false, v.name, false, o.dict[0]); vg.Type() != e {
			return "type", fmt.Sprintf("%sType %q, want %q", where, vg.Type(), e)
		}
		if e := v.t.text(true, v.name, false, o.dict[1]); vg.GoType() != e {
			return "gotype", fmt.Sprintf("%sGoType %q, want %q", where, vg.GoType(), e)
		}
	}
	val, err := vg.Values()
	if err != nil || !sameCn(canon(val), full) {
		return "values", fmt.Sprintf("%sValues %v %s, want %s", where, err, clip(canon(val).String()), clip(full.String()))
	}
	for i := 0; i < o.slices; i++ {
		if k, m := r.rSlice(vg, where, v); m != "" {
			return k, m
		}
	}
	if o.slices > 0 {
		av, err := g.GetVariable(v.name)
		if err != nil || !sameCn(canon(av.Values), full) {
			return "value-after-slices", fmt.Sprintf("%safter slices %v, want %s", where, err, clip(full.String()))
		}
	}
	return "", ""
}

func (r *Run) rSlice(vg api.VarGetter, where string, v *rVar) (key, msg string) {
	rank := len(v.dims)
	if rank == 0 {
		b, e := int64(r.rng.Intn(3)-1), int64(r.rng.Intn(3)-1)
		val, err := vg.GetSlice(b, e)
		if b == 0 && e == 1 {
			if err != nil || !sameCn(canon(val), v.t.expect(v.dims, v.vals)) {
				return "slice-scalar", fmt.Sprintf("%sGetSlice(0,1) of a scalar: %v %s", where, err, clip(canon(val).String()))
			}
		} else if (b < 0 || e > 1 || b > e) && err == nil {
			return "slice-bounds", fmt.Sprintf("%sGetSlice(%d,%d) of a scalar gave no error", where, b, e)
		}
		return "", ""
	}
	n := v.dims[0]
	if r.rng.Intn(2) == 0 {
		b, e := int64(r.rng.Intn(int(n)+4))-2, int64(r.rng.Intn(int(n)+4))-2
		if r.rng.Intn(3) > 0 {
			b = int64(r.rng.Intn(int(n) + 1))
			e = b + int64(r.rng.Intn(int(n-b)+1))
		}
		val, err := vg.GetSlice(b, e)
		if b < 0 || e > n || b > e {
			if err == nil {
				return "slice-bounds", fmt.Sprintf("%sGetSlice(%d,%d) of length %d gave no error", where, b, e, n)
			}
			if isPanic(err) {
				return "slice-panic", fmt.Sprintf("%sGetSlice(%d,%d): %v", where, b, e, err)
			}
			return "", ""
		}
		if err != nil {
			return "slice", fmt.Sprintf("%sGetSlice(%d,%d): %v", where, b, e, err)
		}
		begin := make([]int64, rank)
		end := append([]int64{}, v.dims...)
		begin[0], end[0] = b, e
		nd := append([]int64{}, v.dims...)
		nd[0] = e - b
		want := v.t.expect(nd, subVals(v.vals, v.dims, begin, end))
		if c := canon(val); !sameCn(c, want) {
			return "slice", fmt.Sprintf("%sGetSlice(%d,%d): %s, want %s", where, b, e, clip(c.String()), clip(want.String()))
		}
		return "", ""
	}
	begin, end, nd := make([]int64, rank), make([]int64, rank), make([]int64, rank)
	ok := true
	wild := r.rng.Intn(3) == 0
	for i, d := range v.dims {
		begin[i] = int64(r.rng.Intn(int(d) + 1))
		end[i] = begin[i] + int64(r.rng.Intn(int(d-begin[i])+1))
		if wild && r.rng.Intn(2) == 0 {
			begin[i], end[i] = int64(r.rng.Intn(int(d)+4))-2, int64(r.rng.Intn(int(d)+4))-2
		}
		nd[i] = end[i] - begin[i]
		ok = ok && begin[i] >= 0 && end[i] <= d && begin[i] <= end[i]
	}
	val, err := vg.GetSliceMD(begin, end)
	if !ok {
		if err == nil {
			return "slicemd-bounds", fmt.Sprintf("%sGetSliceMD(%v,%v) of %v gave no error", where, begin, end, v.dims)
		}
		return "", ""
	}
	if err != nil {
		return "slicemd", fmt.Sprintf("%sGetSliceMD(%v,%v): %v", where, begin, end, err)
	}
	want := v.t.expect(nd, subVals(v.vals, v.dims, begin, end))
	if c := canon(val); !sameCn(c, want) {
		return "slicemd", fmt.Sprintf("%sGetSliceMD(%v,%v): %s, want %s", where, begin, end, clip(c.String()), clip(want.String()))
	}
	return "", ""
}

func dictOf(g *rGroup) [2]map[string]string {
	d := [2]map[string]string{{}, {}}
	for pass := 0; pass < 4; pass++ {
		for _, t := range g.types {
			d[0][t.textP(false, selfName, true, d[0])] = t.named
			d[1][t.textP(true, selfName, true, d[1])] = t.named
		}
	}
	return d
}

// rCheck compares everything in the file with what was put there.
func (r *Run) rCheck(f *rFile, o checkOpts) (key, msg string) {
	err := protect(func() error {
		g, err := hdf5.Open(f.path)
		if err != nil {
			key, msg = "open", "Open: "+err.Error()
			return nil
		}
		defer g.Close()
		key, msg = r.rCheckGroup(f.root, g, o)
		return nil
	})
	if err != nil {
		return "panic", err.Error()
	}
	return
}

func sorted(s []string) []string {
	s = append([]string{}, s...)
	sort.Strings(s)
	return s
}

func (r *Run) rCheckGroup(want *rGroup, g api.Group, o checkOpts) (key, msg string) {
	if s := rCheckAtts("group "+want.path, want.atts, g.Attributes()); s != "" {
		return "group-attributes", s
	}
	var vs, ss, ts, ds []string
	for _, v := range want.vars {
		if !v.scale {
			vs = append(vs, v.name)
		}
	}
	for _, s := range want.subs {
		ss = append(ss, s.name)
	}
	for _, t := range want.types {
		ts = append(ts, t.named)
	}
	eq := func(a, b []string) bool { return fmt.Sprintf("%q", sorted(a)) == fmt.Sprintf("%q", sorted(b)) }
	if l := g.ListVariables(); !eq(l, vs) {
		return "list-variables", fmt.Sprintf("group %s: variables %q, want %q", want.path, sorted(l), sorted(vs))
	}
	if l := g.ListSubgroups(); !eq(l, ss) {
		return "list-subgroups", fmt.Sprintf("group %s: subgroups %q, want %q", want.path, sorted(l), sorted(ss))
	}
	if l := g.ListTypes(); !eq(l, ts) {
		return "list-types", fmt.Sprintf("group %s: types %q, want %q", want.path, sorted(l), sorted(ts))
	}
	_ = ds
	o.dict = dictOf(want)
	for _, t := range want.types {
		s, has := g.GetType(t.named)
		if e := t.text(false, t.named, true, o.dict[0]); !has || s != e {
			return "type-text", fmt.Sprintf("GetType(%q) %q, want %q", t.named, s, e)
		}
		s, has = g.GetGoType(t.named)
		if e := "type " + t.named + " " + t.text(true, t.named, true, o.dict[1]); !has || s != e {
			return "gotype-text", fmt.Sprintf("GetGoType(%q) %q, want %q", t.named, s, e)
		}
	}
	for _, v := range want.vars {
		if v.scale {
			continue
		}
		if k, m := r.rCheckVar(g, strings.TrimSuffix(want.path, "/"), v, o); m != "" {
			return k, m
		}
	}
	for _, s := range want.subs {
		sg, err := g.GetGroup(s.name)
		if err != nil {
			return "get-group", fmt.Sprintf("GetGroup(%q) in %s: %v", s.name, want.path, err)
		}
		k, m := r.rCheckGroup(s, sg, o)
		sg.Close()
		if m != "" {
			return k, m
		}
	}
	return "", ""
}

func (r *Run) rFail(f *rFile, key, msg string) {
	data, _ := os.ReadFile(f.path)
	r.Fail(key, msg+"\n"+f.String()+"\nmade by: "+clip2(strings.Join(f.tool.log, "\n")), data)
}

func clip2(s string) string {
	if len(s) > 6000 {
		return s[:6000] + "..."
	}
	return s
}

// ---- the properties

func init() {
	register("H04", h5Filters)
	register("H05", h5Layouts)
	register("H06", h5Slices)
	register("H07", h5Types)
	register("C05", h5Fills)
}

func (r *Run) libs() string { return r.pick("old", "v18", "v18") }

func noPhase() [4]int { return [4]int{-1, -1, -1, -1} }

func (r *Run) rVars(part string, cases int, n int, o func(i int) vOpts, c checkOpts) {
	t := r.h5tool()
	defer t.stop()
	for i := 0; i < cases && !r.expired(); i++ {
		f := r.newRFile(t, r.libs(), r.rng.Intn(2) == 0, noPhase(), 0)
		used := map[string]bool{}
		for k := 0; k < n; k++ {
			f.randVar(r, f.root, r.name(used), o(i))
		}
		f.close()
		r.Case(part, f.String())
		if key, msg := r.rCheck(f, c); msg != "" {
			r.rFail(f, key, msg)
		}
	}
}

func h5Filters(r *Run) {
	r.rVars("filters", r.n(1500, 20000), 2, func(i int) vOpts {
		return vOpts{t: tOpts{depth: i % 3, be: true, noV: true}, layouts: []string{"chunked"}, maxRank: 1 + i%3, filters: true, raw: i%2 == 0, bigDims: i%3 == 0, alwaysFull: i%2 == 0}
	}, checkOpts{slices: 2})
}

func h5Layouts(r *Run) {
	r.rVars("layouts", r.n(1500, 20000), 2, func(i int) vOpts {
		return vOpts{t: tOpts{depth: i % 2, be: true, noV: i%4 != 0}, layouts: []string{"compact", "contig", "chunked", "chunked", "chunked"}, maxRank: 1 + i%5, filters: i%3 == 0, bigDims: i%3 == 0, zero: true}
	}, checkOpts{})
}

func h5Slices(r *Run) {
	r.rVars("slices", r.n(1500, 20000), 2, func(i int) vOpts {
		return vOpts{t: tOpts{depth: i % 3, be: true, noV: i%3 != 0}, layouts: []string{"compact", "contig", "chunked", "chunked", "chunked"}, maxRank: 1 + i%5, filters: i%3 == 0, bigDims: i%3 == 0, zero: true}
	}, checkOpts{slices: 12})
}

func h5Fills(r *Run) {
	r.rVars("hdf5 fills", r.n(700, 10000), 2, func(i int) vOpts {
		return vOpts{t: tOpts{depth: 0, be: true, noV: i%5 != 0}, layouts: []string{"contig", "chunked", "chunked"}, maxRank: 1 + i%4, filters: i%3 == 0, unwritten: true, bigDims: i%3 == 0}
	}, checkOpts{slices: 1})
}

func h5Types(r *Run) {
	t := r.h5tool()
	defer t.stop()
	for i := 0; i < r.n(1500, 20000) && !r.expired(); i++ {
		lib := []string{"old", "v18", "latest"}[i%3]
		f := r.newRFile(t, lib, r.rng.Intn(2) == 0, noPhase(), 0)
		used := map[string]bool{}
		o := tOpts{depth: i % 4, be: true}
		lay := []string{"compact", "contig", "chunked"}
		if lib == "latest" {
			lay = lay[:2]
		}
		part := "types"
		if i%3 == 1 || i%5 == 0 {
			// committed types, some built from others
			part = "named types"
			sigs := map[string]bool{}
			cost := 1
			for k := 1 + r.rng.Intn(4); k > 0; k-- {
				ty := r.genNamed(f, o, r.name(used))
				// the names of types are found by comparing each part of each with all the
				// others, recursively: that never ends for many types of many parts
				if cost *= 1 + ty.parts(); cost > 100000 {
					break
				}
				d := dictOf(f.root)
				s := ty.textP(false, selfName, true, d[0])
				s2 := ty.textP(true, selfName, true, d[1])
				if sigs[s] || sigs[s2] {
					continue
				}
				sigs[s], sigs[s2] = true, true
				f.commit(f.root, ty)
			}
		}
		if i%50 == 49 {
			part = "many named types"
			for k := 6 + r.rng.Intn(8); k > 0; k-- {
				ty := &hT{kind: "enum", base: r.genInt(o), named: r.name(used)}
				for j := 0; j < 3; j++ {
					ty.names = append(ty.names, fmt.Sprintf("e%d_%d", k, j))
					ty.evals = append(ty.evals, numFrom(ty.base, []byte{byte(j), 0, 0, 0, 0, 0, 0, 0}))
				}
				f.commit(f.root, ty)
			}
		}
		for k := 1 + r.rng.Intn(2); k > 0; k-- {
			vo := vOpts{t: o, layouts: lay, maxRank: 2, alwaysFull: true, zero: i%6 == 5}
			if len(f.root.types) > 0 && r.rng.Intn(3) > 0 {
				vo.typ = f.root.types[r.rng.Intn(len(f.root.types))]
			}
			v := f.randVar(r, f.root, r.name(used), vo)
			v.atts = r.rRandAtts(r.rng.Intn(3), o)
			for _, a := range v.atts {
				if len(f.root.types) > 0 && r.rng.Intn(2) == 0 {
					a.t = f.root.types[r.rng.Intn(len(f.root.types))]
					for i := range a.vals {
						a.vals[i] = r.genVal(a.t)
					}
				}
				f.attr("/"+v.name, a)
			}
		}
		f.root.atts = r.rRandAtts(r.rng.Intn(3), o)
		for _, a := range f.root.atts {
			f.attr("/", a)
		}
		f.close()
		r.Case(part, f.String())
		if key, msg := r.rCheck(f, checkOpts{slices: 1, meta: true}); msg != "" {
			r.rFail(f, key, msg)
		}
	}
}

// genNamed: a compound, enum, opaque or vlen type, possibly using types committed before
func (r *Run) genNamed(f *rFile, o tOpts, name string) *hT {
	for {
		if o.depth < 1 {
			o.depth = 1
		}
		t := r.genType(o)
		switch t.kind {
		case "compound":
			if len(f.root.types) > 0 && r.rng.Intn(2) == 0 && len(t.mem) < 10 {
				t.mem[len(t.mem)-1] = f.root.types[r.rng.Intn(len(f.root.types))]
				t.size = t.offs[len(t.offs)-1] + t.mem[len(t.mem)-1].msize()
			}
		case "vlen":
			if len(f.root.types) > 0 && r.rng.Intn(2) == 0 {
				t.base = f.root.types[r.rng.Intn(len(f.root.types))]
			}
		case "enum", "opaque":
		default:
			continue
		}
		t.named = name
		return t
	}
}

// parts counts the types inside that may have names
func (t *hT) parts() int {
	n := 0
	switch t.kind {
	case "enum", "opaque":
		n = 1
	case "vlen", "array":
		n = 1 + t.base.parts()
	case "compound":
		n = 1
		for _, m := range t.mem {
			n += m.parts()
		}
	}
	return n
}
