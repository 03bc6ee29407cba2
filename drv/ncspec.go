package main

// An independent encoder and decoder of the classic netCDF format (versions 1, 2, 5),
// written from the published specification.

import (
	"encoding/binary"
	"fmt"
	"math"
)

const (
	ncByte = 1 + iota
	ncChar
	ncShort
	ncInt
	ncFloat
	ncDouble
	ncUByte
	ncUShort
	ncUInt
	ncInt64
	ncUInt64
)

var ncSize = map[int]int{ncByte: 1, ncChar: 1, ncShort: 2, ncInt: 4, ncFloat: 4, ncDouble: 8,
	ncUByte: 1, ncUShort: 2, ncUInt: 4, ncInt64: 8, ncUInt64: 8}
var ncGo = map[int]string{ncByte: "int8", ncChar: "string", ncShort: "int16", ncInt: "int32", ncFloat: "float32",
	ncDouble: "float64", ncUByte: "uint8", ncUShort: "uint16", ncUInt: "uint32", ncInt64: "int64", ncUInt64: "uint64"}
var ncCDL = map[int]string{ncByte: "byte", ncChar: "char", ncShort: "short", ncInt: "int", ncFloat: "float",
	ncDouble: "double", ncUByte: "ubyte", ncUShort: "ushort", ncUInt: "uint", ncInt64: "int64", ncUInt64: "uint64"}

// elements are raw big-endian bytes: ncSize[type] bytes each
type ncDim struct {
	name string
	len  int64 // 0: record dimension
}
type ncAtt struct {
	name string
	typ  int
	raw  []byte
}
type ncVar struct {
	name  string
	dims  []int
	atts  []ncAtt
	typ   int
	raw   []byte // all elements, record by record
	begin int64
	vsize int64
}
type ncFile struct {
	version int
	numrecs int64
	dims    []ncDim
	atts    []ncAtt
	vars    []*ncVar
	recsize int64
}

func (f *ncFile) isRec(v *ncVar) bool { return len(v.dims) > 0 && f.dims[v.dims[0]].len == 0 }

// perRec: number of elements per record (record variable) or in all
func (f *ncFile) perRec(v *ncVar) int64 {
	n := int64(1)
	for i, d := range v.dims {
		if i == 0 && f.isRec(v) {
			continue
		}
		n *= f.dims[d].len
	}
	return n
}
func (f *ncFile) shape(v *ncVar) []int64 {
	s := []int64{}
	for i, d := range v.dims {
		if i == 0 && f.isRec(v) {
			s = append(s, f.numrecs)
		} else {
			s = append(s, f.dims[d].len)
		}
	}
	return s
}
func (f *ncFile) total(v *ncVar) int64 {
	n := f.perRec(v)
	if f.isRec(v) {
		n *= f.numrecs
	}
	return n
}
func pad4(n int64) int64 { return (n + 3) / 4 * 4 }

type benc struct {
	b   []byte
	ver int
}

func (e *benc) u32(v uint32) { e.b = binary.BigEndian.AppendUint32(e.b, v) }
func (e *benc) num(v int64) {
	if e.ver == 5 {
		e.b = binary.BigEndian.AppendUint64(e.b, uint64(v))
	} else {
		e.u32(uint32(v))
	}
}
func (e *benc) padded(p []byte) {
	e.b = append(e.b, p...)
	for len(e.b)%4 != 0 {
		e.b = append(e.b, 0)
	}
}
func (e *benc) name(s string) { e.num(int64(len(s))); e.padded([]byte(s)) }
func (e *benc) attrs(as []ncAtt) {
	if len(as) == 0 {
		e.u32(0)
		e.num(0)
		return
	}
	e.u32(12)
	e.num(int64(len(as)))
	for _, a := range as {
		e.name(a.name)
		e.u32(uint32(a.typ))
		e.num(int64(len(a.raw) / ncSize[a.typ]))
		e.padded(a.raw)
	}
}

// layout fills in vsize, recsize; begins with data starting at base (+gap between variables)
func (f *ncFile) header(base, gap int64) []byte {
	off := base
	nrec := 0
	for _, v := range f.vars {
		v.vsize = pad4(f.perRec(v) * int64(ncSize[v.typ]))
		if f.isRec(v) {
			nrec++
		} else {
			v.begin = off
			off += v.vsize + gap
		}
	}
	f.recsize = 0
	for _, v := range f.vars {
		if f.isRec(v) {
			v.begin = off
			sz := f.perRec(v) * int64(ncSize[v.typ])
			if nrec > 1 {
				sz = pad4(sz)
			}
			off += sz
			f.recsize += sz
		}
	}
	e := &benc{ver: f.version}
	e.b = append(e.b, 'C', 'D', 'F', byte(f.version))
	e.num(f.numrecs)
	if len(f.dims) == 0 {
		e.u32(0)
		e.num(0)
	} else {
		e.u32(10)
		e.num(int64(len(f.dims)))
		for _, d := range f.dims {
			e.name(d.name)
			e.num(d.len)
		}
	}
	e.attrs(f.atts)
	if len(f.vars) == 0 {
		e.u32(0)
		e.num(0)
	} else {
		e.u32(11)
		e.num(int64(len(f.vars)))
		for _, v := range f.vars {
			e.name(v.name)
			e.num(int64(len(v.dims)))
			for _, d := range v.dims {
				e.num(int64(d))
			}
			e.attrs(v.atts)
			e.u32(uint32(v.typ))
			e.num(v.vsize)
			if f.version == 1 {
				e.u32(uint32(v.begin))
			} else {
				e.b = binary.BigEndian.AppendUint64(e.b, uint64(v.begin))
			}
		}
	}
	return e.b
}

// headerLen: the size of the header, without touching the layout
func (f *ncFile) headerLen() int64 {
	c := *f
	c.vars = nil
	for _, v := range f.vars {
		w := *v
		c.vars = append(c.vars, &w)
	}
	return int64(len(c.header(0, 0)))
}

// encode builds the file; padByte fills data padding (the format calls for fill values
// or zero; readers must ignore it).
func (f *ncFile) encode(gap int64, padByte byte) []byte {
	h := f.header(0, gap)
	h = f.header(int64(len(h))+gap, gap)
	b := append([]byte{}, h...)
	put := func(at int64, p []byte) {
		for int64(len(b)) < at+int64(len(p)) {
			b = append(b, padByte)
		}
		copy(b[at:], p)
	}
	for _, v := range f.vars {
		if !f.isRec(v) {
			put(v.begin, v.raw)
			for len(b)%4 != 0 {
				b = append(b, padByte)
			}
		}
	}
	for r := int64(0); r < f.numrecs; r++ {
		for _, v := range f.vars {
			if f.isRec(v) {
				n := f.perRec(v) * int64(ncSize[v.typ])
				put(v.begin+r*f.recsize, v.raw[r*n:(r+1)*n])
			}
		}
	}
	for len(b)%4 != 0 {
		b = append(b, padByte)
	}
	return b
}

type bdec struct {
	b   []byte
	p   int
	ver int
}

type decErr string

func (d *bdec) need(n int) []byte {
	if n < 0 || d.p+n > len(d.b) {
		panic(decErr(fmt.Sprintf("header runs past the end of the file at %d (+%d of %d)", d.p, n, len(d.b))))
	}
	s := d.b[d.p : d.p+n]
	d.p += n
	return s
}
func (d *bdec) u32() uint32 { return binary.BigEndian.Uint32(d.need(4)) }
func (d *bdec) num() int64 {
	if d.ver == 5 {
		return int64(binary.BigEndian.Uint64(d.need(8)))
	}
	return int64(int32(d.u32()))
}
func (d *bdec) pad(n int) {
	for ; n%4 != 0; n++ {
		if d.need(1)[0] != 0 {
			panic(decErr("non-zero header padding"))
		}
	}
}
func (d *bdec) count(tag uint32) int64 {
	t := d.u32()
	n := d.num()
	if t == 0 {
		if n != 0 {
			panic(decErr("absent list with entries"))
		}
		return 0
	}
	if t != tag {
		panic(decErr(fmt.Sprintf("tag %d where %d is expected", t, tag)))
	}
	if n < 0 {
		panic(decErr("negative count"))
	}
	return n
}
func (d *bdec) str() string {
	n := int(d.num())
	s := string(d.need(n))
	d.pad(n)
	return s
}
func (d *bdec) attrs() []ncAtt {
	n := d.count(12)
	var out []ncAtt
	for ; n > 0; n-- {
		a := ncAtt{name: d.str()}
		a.typ = int(d.u32())
		if ncSize[a.typ] == 0 {
			panic(decErr(fmt.Sprintf("attribute type %d", a.typ)))
		}
		k := int(d.num()) * ncSize[a.typ]
		a.raw = append([]byte{}, d.need(k)...)
		d.pad(k)
		out = append(out, a)
	}
	return out
}

// ncDecode decodes strictly: everything the format prescribes is checked.
func ncDecode(b []byte) (f *ncFile, err error) {
	defer func() {
		if p := recover(); p != nil {
			if e, ok := p.(decErr); ok {
				err = fmt.Errorf("%s", string(e))
				return
			}
			panic(p)
		}
	}()
	d := &bdec{b: b}
	if string(d.need(3)) != "CDF" {
		return nil, fmt.Errorf("bad magic")
	}
	f = &ncFile{version: int(d.need(1)[0])}
	if f.version != 1 && f.version != 2 && f.version != 5 {
		return nil, fmt.Errorf("bad version %d", f.version)
	}
	d.ver = f.version
	f.numrecs = d.num()
	for n := d.count(10); n > 0; n-- {
		x := ncDim{name: d.str()}
		x.len = d.num()
		if x.len < 0 {
			return nil, fmt.Errorf("negative dimension length")
		}
		f.dims = append(f.dims, x)
	}
	nrecdims := 0
	seen := map[string]bool{}
	for _, x := range f.dims {
		if x.len == 0 {
			nrecdims++
		}
		if seen[x.name] {
			return nil, fmt.Errorf("duplicate dimension %q", x.name)
		}
		seen[x.name] = true
	}
	if nrecdims > 1 {
		return nil, fmt.Errorf("%d record dimensions", nrecdims)
	}
	f.atts = d.attrs()
	seen = map[string]bool{}
	for n := d.count(11); n > 0; n-- {
		v := &ncVar{name: d.str()}
		if seen[v.name] {
			return nil, fmt.Errorf("duplicate variable %q", v.name)
		}
		seen[v.name] = true
		for k := d.num(); k > 0; k-- {
			id := d.num()
			if id < 0 || id >= int64(len(f.dims)) {
				return nil, fmt.Errorf("variable %q: dimension id %d", v.name, id)
			}
			v.dims = append(v.dims, int(id))
		}
		for i, id := range v.dims {
			if i > 0 && f.dims[id].len == 0 {
				return nil, fmt.Errorf("variable %q: record dimension not first", v.name)
			}
		}
		v.atts = d.attrs()
		v.typ = int(d.u32())
		if ncSize[v.typ] == 0 {
			return nil, fmt.Errorf("variable %q: type %d", v.name, v.typ)
		}
		if v.typ >= ncUByte && f.version < 5 {
			return nil, fmt.Errorf("variable %q: type %d in version %d", v.name, v.typ, f.version)
		}
		v.vsize = d.num()
		if f.version == 1 {
			v.begin = int64(d.u32())
		} else {
			v.begin = int64(binary.BigEndian.Uint64(d.need(8)))
		}
		f.vars = append(f.vars, v)
	}
	for _, a := range f.allAtts() {
		if a.typ >= ncUByte && f.version < 5 {
			return nil, fmt.Errorf("attribute %q: type %d in version %d", a.name, a.typ, f.version)
		}
	}
	// data
	type ext struct {
		from, to int64
		who      string
	}
	var exts []ext
	hdr := int64(d.p)
	nrec := 0
	for _, v := range f.vars {
		if f.isRec(v) {
			nrec++
		}
	}
	f.recsize = 0
	for _, v := range f.vars {
		sz := f.perRec(v) * int64(ncSize[v.typ])
		if v.vsize != pad4(sz) {
			return nil, fmt.Errorf("variable %q: vsize %d, want %d", v.name, v.vsize, pad4(sz))
		}
		if v.begin < hdr {
			return nil, fmt.Errorf("variable %q begins at %d inside the header (%d bytes)", v.name, v.begin, hdr)
		}
		if f.isRec(v) {
			if nrec > 1 {
				sz = pad4(sz)
			}
			f.recsize += sz
		}
	}
	for _, v := range f.vars {
		sz := f.perRec(v) * int64(ncSize[v.typ])
		reps := int64(1)
		if f.isRec(v) {
			reps = f.numrecs
		}
		for r := int64(0); r < reps; r++ {
			at := v.begin + r*f.recsize
			if at+sz > int64(len(b)) {
				return nil, fmt.Errorf("variable %q: data %d..%d past the end of the file (%d)", v.name, at, at+sz, len(b))
			}
			v.raw = append(v.raw, b[at:at+sz]...)
			if sz > 0 {
				exts = append(exts, ext{at, at + sz, v.name})
			}
		}
	}
	for i := range exts {
		for j := range exts[:i] {
			if exts[i].from < exts[j].to && exts[j].from < exts[i].to {
				return nil, fmt.Errorf("data of %q and %q overlap", exts[i].who, exts[j].who)
			}
		}
	}
	return f, nil
}

func (f *ncFile) allAtts() []ncAtt {
	out := append([]ncAtt{}, f.atts...)
	for _, v := range f.vars {
		out = append(out, v.atts...)
	}
	return out
}

// goScalar: element i of raw as a Go value of the type the README assigns
func goScalar(typ int, p []byte) any {
	be := binary.BigEndian
	switch typ {
	case ncByte:
		return int8(p[0])
	case ncChar, ncUByte:
		return p[0]
	case ncShort:
		return int16(be.Uint16(p))
	case ncInt:
		return int32(be.Uint32(p))
	case ncFloat:
		return math.Float32frombits(be.Uint32(p))
	case ncDouble:
		return math.Float64frombits(be.Uint64(p))
	case ncUShort:
		return be.Uint16(p)
	case ncUInt:
		return be.Uint32(p)
	case ncInt64:
		return int64(be.Uint64(p))
	case ncUInt64:
		return be.Uint64(p)
	}
	panic("type")
}
