package main

import (
	"fmt"
	"os"
	"reflect"

	"github.com/batchatco/go-native-netcdf/netcdf/api"
	"github.com/batchatco/go-native-netcdf/netcdf/hdf5"
)

// Dimensions, shapes and types of HDF5 variables (A02).

type hDim struct {
	id    int // its number, if it has one
	name  string
	n     int64
	path  string
	coord *rVar
}

var cdlOf = map[string]string{"int8": "byte", "uint8": "ubyte", "int16": "short", "uint16": "ushort", "int32": "int", "uint32": "uint",
	"int64": "int64", "uint64": "uint64", "float32": "float", "float64": "double", "string": "string"}

func h5Dims(r *Run) {
	quiet()
	t := r.h5tool()
	defer t.stop()
	for i := 0; i < r.n(500, 9000) && !r.expired(); i++ {
		f := r.newRFile(t, r.libs(), r.rng.Intn(2) == 0, noPhase(), 0)
		tr := &tree{r: r, f: f, used: map[*rGroup]map[string]bool{}}
		groups := []*rGroup{f.root}
		parent := map[*rGroup]*rGroup{}
		for k := r.rng.Intn(4); k > 0; k-- {
			p := groups[r.rng.Intn(len(groups))]
			g := tr.group(p, tr.fresh(p, false), noPhase())
			parent[g] = p
			groups = append(groups, g)
		}
		dims := map[*rGroup][]*hDim{}
		id := 0
		var numbered []*hDim
		for _, g := range groups {
			for k := r.rng.Intn(4); k > 0; k-- {
				d := &hDim{name: tr.fresh(g, r.rng.Intn(3) == 0), n: int64(1 + r.rng.Intn(4))}
				d.path = join2(g.path, d.name)
				v := &rVar{name: d.name, t: &hT{kind: "float", size: 4, be: true}, dims: []int64{d.n}, layout: "contig", fill: "default"}
				var multi []int32 // the numbers of the dimensions of a coordinate variable that has several
				label := fmt.Sprintf("This is a netCDF dimension but not a netCDF variable.%10d", d.n)
				if r.rng.Intn(2) == 0 {
					v.t = r.genType(tOpts{depth: 0, be: true})
					d.coord = v
					label = d.name
					if r.rng.Intn(5) == 0 {
						label = r.pick("a title", "x", "")
					}
					v.dimNm = []string{d.name}
					// more dimensions: numbered ones, of this group or another
					for len(numbered) > 0 && r.rng.Intn(3) == 0 && len(v.dims) < 3 {
						e := numbered[r.rng.Intn(len(numbered))]
						v.dims = append(v.dims, e.n)
						v.dimNm = append(v.dimNm, e.name)
						multi = append(multi, int32(e.id))
					}
					if len(multi) > 0 {
						multi = append([]int32{int32(id)}, multi...)
						label = d.name
					}
				}
				if d.coord != nil && label == "" {
					// a scale without a name is not a coordinate variable; see h5Scale below
					label = d.name
				}
				v.scale = d.coord == nil
				f.dset(g, v, r.rng.Intn(3) == 0 && false, "default", "default", 0, [2]int{-1, -1})
				v.vals = nil
				for j := prod(v.dims); j > 0; j-- {
					v.vals = append(v.vals, v.missing())
				}
				if d.coord != nil {
					f.write(r, g, v, make([]int64, len(v.dims)), v.dims)
				}
				t.gen("scale %s %s", pct(d.path), pct(label))
				if len(multi) > 0 {
					ids := &rAtt{name: "_Netcdf4Coordinates", t: i32T, dims: []int64{int64(len(multi))}}
					for _, n := range multi {
						ids.vals = append(ids.vals, n)
					}
					f.attr(d.path, ids)
				}
				if len(multi) > 0 || r.rng.Intn(2) == 0 {
					f.attr(d.path, &rAtt{name: "_Netcdf4Dimid", t: i32T, dims: []int64{}, vals: []any{int32(id)}})
					d.id = id
					numbered = append(numbered, d)
				}
				id++
				dims[g] = append(dims[g], d)
			}
		}
		for _, g := range groups {
			var avail []*hDim
			for a := g; a != nil; a = parent[a] {
				avail = append(avail, dims[a]...)
			}
			for k := r.rng.Intn(5); k > 0; k-- {
				v := &rVar{name: tr.fresh(g, r.rng.Intn(3) == 0), t: r.genType(tOpts{depth: r.rng.Intn(2), be: true}), dims: []int64{}, layout: "contig", fill: "default"}
				var ds []*hDim
				rank := r.rng.Intn(4)
				named := len(avail) > 0 && r.rng.Intn(5) > 0
				for j := 0; j < rank; j++ {
					if named {
						d := avail[r.rng.Intn(len(avail))]
						ds = append(ds, d)
						v.dims = append(v.dims, d.n)
						v.dimNm = append(v.dimNm, d.name)
					} else {
						v.dims = append(v.dims, int64(1+r.rng.Intn(4)))
					}
				}
				if v.t.kind == "vlen" && rank == 0 && false {
					continue
				}
				f.dset(g, v, false, "default", "default", 0, [2]int{-1, -1})
				for j := prod(v.dims); j > 0; j-- {
					v.vals = append(v.vals, v.missing())
				}
				f.write(r, g, v, make([]int64, rank), v.dims)
				for j, d := range ds {
					t.gen("attach %s %s %d", pct(join2(g.path, v.name)), pct(d.path), j)
				}
			}
		}
		f.close()
		r.Case("dimension scales", f.String())
		key, msg := "", ""
		err := protect(func() error {
			root, err := hdf5.Open(f.path)
			if err != nil {
				return err
			}
			defer root.Close()
			for _, g := range groups {
				gg, err := root.GetGroup(g.path)
				if err != nil {
					return err
				}
				key, msg = r.checkDims(gg, g, dims[g])
				if msg == "" {
					key, msg = r.rCheckGroup(g, gg, checkOpts{meta: true})
				}
				gg.Close()
				if msg != "" {
					return nil
				}
			}
			return nil
		})
		if err != nil {
			key, msg = "error", err.Error()
		}
		if msg != "" {
			r.rFail(f, key, msg)
		}
	}
	for i := 0; i < r.n(700, 9000) && !r.expired(); i++ {
		p := r.hRandProgram(hOpts{odd: i%4 == 3, vlen: i%3 == 0})
		path := r.dir + "/dims.h5"
		if err, _ := hWriteProgram(path, p); err != nil {
			continue
		}
		r.Case("written dimensions", p.String())
		msg := ""
		err := protect(func() error { msg = checkWrittenDims(path, p); return nil })
		if err != nil {
			msg = err.Error()
		}
		if msg != "" {
			b, _ := os.ReadFile(path)
			r.Fail("written", msg+"\n"+p.String(), b)
		}
	}
}

func (r *Run) checkDims(gg api.Group, g *rGroup, ds []*hDim) (key, msg string) {
	var want []string
	lens := map[string]int64{}
	for _, d := range ds {
		want = append(want, d.name)
		lens[d.name] = d.n
	}
	if l := gg.ListDimensions(); fmt.Sprintf("%q", sorted(l)) != fmt.Sprintf("%q", sorted(want)) {
		return "list-dimensions", fmt.Sprintf("group %s: ListDimensions %q, want %q", g.path, sorted(l), sorted(want))
	}
	names := append([]string{"nosuch", ""}, want...)
	for _, v := range g.vars {
		names = append(names, v.name)
	}
	for _, s := range g.subs {
		names = append(names, s.name)
	}
	for _, n := range names {
		l, has := gg.GetDimension(n)
		w, whas := lens[n]
		if has != whas || l != uint64(w) {
			return "get-dimension", fmt.Sprintf("group %s: GetDimension(%q) %d %v, want %d %v", g.path, n, l, has, w, whas)
		}
	}
	for _, v := range g.vars {
		if v.scale {
			continue
		}
		vg, err := gg.GetVarGetter(v.name)
		if err != nil {
			return "getter", err.Error()
		}
		val, err := vg.Values()
		if err != nil {
			return "values", err.Error()
		}
		if n := len(vg.Dimensions()); v.dimNm != nil && n != len(v.dims) || n != 0 && n != len(v.dims) {
			return "rank", fmt.Sprintf("variable %q: Dimensions %q of a value with %d dimensions", v.name, vg.Dimensions(), len(v.dims))
		}
		if e := v.t.gnameDims(len(v.dims)); fmt.Sprintf("%T", val) != e && v.t.kind != "vlen" && v.t.kind != "compound" {
			return "go-type-of-value", fmt.Sprintf("variable %q: value %T, want %s", v.name, val, e)
		}
	}
	return "", ""
}

func checkWrittenDims(path string, p *hGroup) string {
	root, err := hdf5.Open(path)
	if err != nil {
		return err.Error()
	}
	defer root.Close()
	sizes := map[string]int64{}
	known := map[string]bool{}
	p.walk(func(g *hGroup) {
		for _, v := range g.vars {
			for i, n := range shapeOf(v.val) {
				if i < len(v.dims) {
					sizes[v.dims[i]] = n
				}
			}
			for _, d := range v.dims {
				known[d] = true
			}
		}
	})
	var want []string
	for d := range known {
		want = append(want, d)
	}
	if l := root.ListDimensions(); fmt.Sprintf("%q", sorted(l)) != fmt.Sprintf("%q", sorted(want)) {
		return fmt.Sprintf("ListDimensions %q, want %q", sorted(l), sorted(want))
	}
	for d := range known {
		if l, has := root.GetDimension(d); !has || l != uint64(sizes[d]) {
			return fmt.Sprintf("GetDimension(%q) %d %v, want %d", d, l, has, sizes[d])
		}
	}
	msg := ""
	p.walk(func(g *hGroup) {
		if msg != "" {
			return
		}
		gg, err := root.GetGroup(g.path)
		if err != nil {
			msg = err.Error()
			return
		}
		defer gg.Close()
		if g != p && len(gg.ListDimensions()) > 0 {
			msg = fmt.Sprintf("group %s: ListDimensions %q, want none", g.path, gg.ListDimensions())
			return
		}
		for _, v := range g.vars {
			vg, err := gg.GetVarGetter(v.name)
			if err != nil {
				msg = err.Error()
				return
			}
			et := reflect.TypeOf(v.val)
			for range v.dims {
				et = et.Elem()
			}
			shape := []int64{}
			for _, d := range v.dims {
				shape = append(shape, sizes[d])
			}
			n := int64(1)
			if len(shape) > 0 {
				n = shape[0]
			}
			if vg.Len() != n || fmt.Sprint(vg.Shape()) != fmt.Sprint(shape) || fmt.Sprintf("%q", vg.Dimensions()) != fmt.Sprintf("%q", v.dims) && len(v.dims)+len(vg.Dimensions()) > 0 {
				msg = fmt.Sprintf("variable %s%s: Len %d Shape %v Dimensions %q, want %d %v %q", g.path, v.name, vg.Len(), vg.Shape(), vg.Dimensions(), n, shape, v.dims)
				return
			}
			if et.Kind() != reflect.Slice {
				if vg.GoType() != et.String() || vg.Type() != cdlOf[et.String()] {
					msg = fmt.Sprintf("variable %s%s: Type %q GoType %q of %s", g.path, v.name, vg.Type(), vg.GoType(), et)
					return
				}
			}
			val, err := vg.Values()
			if err != nil {
				msg = err.Error()
				return
			}
			if reflect.TypeOf(val) != reflect.TypeOf(v.val) {
				msg = fmt.Sprintf("variable %s%s: the value is a %T, want %T", g.path, v.name, val, v.val)
				return
			}
		}
	})
	return msg
}

func init() { register("A02", h5Dims) }
