package main

import (
	"encoding/binary"
	"encoding/hex"
	"fmt"
	"math"
	"reflect"
	"strconv"
	"strings"
)

// HDF5 datatypes and values for files made with the C library.

type hT struct {
	kind   string // int float str vstr enum opaque compound array vlen
	size   int
	signed bool
	be     bool
	pad    string // n t s
	cset   int
	base   *hT
	dims   []int64
	names  []string
	offs   []int
	mem    []*hT
	evals  []any
	tag    string
	id     int
	idGen  int
	named  string // committed under this name in the group that uses it
}

// memory size (as the C library sees it)
func (t *hT) msize() int {
	switch t.kind {
	case "int", "float", "str", "opaque":
		return t.size
	case "vstr":
		return 8
	case "vlen":
		return 16
	case "enum":
		return t.base.size
	case "array":
		return int(prod(t.dims)) * t.base.msize()
	}
	return t.size
}

func (t *hT) hasV() bool {
	switch t.kind {
	case "vstr", "vlen":
		return true
	case "array":
		return t.base.hasV()
	case "compound":
		for _, m := range t.mem {
			if m.hasV() {
				return true
			}
		}
	}
	return false
}

// hasVCompound: a compound with a variable-length member is somewhere inside.
func (t *hT) hasVCompound() bool {
	switch t.kind {
	case "vlen", "array":
		return t.base.hasVCompound()
	case "compound":
		return t.hasV()
	}
	return false
}

func prod(d []int64) int64 {
	p := int64(1)
	for _, n := range d {
		p *= n
	}
	return p
}

func (t *hT) String() string {
	e := ""
	if t.be {
		e = "be"
	}
	n := ""
	if t.named != "" {
		n = "<" + t.named + ">"
	}
	switch t.kind {
	case "int":
		s := "u"
		if t.signed {
			s = "s"
		}
		return fmt.Sprintf("%si%d%s", s, t.size, e)
	case "float":
		return fmt.Sprintf("f%d%s", t.size, e)
	case "str":
		return fmt.Sprintf("str%d%s", t.size, t.pad)
	case "enum":
		return fmt.Sprintf("%senum(%v %q %v)", n, t.base, t.names, t.evals)
	case "opaque":
		return fmt.Sprintf("%sopaque%d(%q)", n, t.size, t.tag)
	case "array":
		return fmt.Sprintf("array%v(%v)", t.dims, t.base)
	case "vlen":
		return fmt.Sprintf("%svlen(%v)", n, t.base)
	case "compound":
		var b []string
		for i, m := range t.mem {
			b = append(b, fmt.Sprintf("%q@%d:%v", t.names[i], t.offs[i], m))
		}
		return fmt.Sprintf("%scompound%d{%s}", n, t.size, strings.Join(b, ";"))
	}
	return t.kind
}

// ---- generation

type tOpts struct {
	depth  int
	be     bool
	simple bool // numbers and strings only
	noStr1 bool
	noV    bool // nothing of variable length
	sig    map[string]bool
}

func (r *Run) pick(a ...string) string { return a[r.rng.Intn(len(a))] }

func (r *Run) genInt(o tOpts) *hT {
	return &hT{kind: "int", size: 1 << r.rng.Intn(4), signed: r.rng.Intn(2) == 0, be: o.be && r.rng.Intn(2) == 0}
}

func (r *Run) genType(o tOpts) *hT {
	k := r.rng.Intn(10)
	if o.simple || o.depth <= 0 {
		k = r.rng.Intn(5)
		if o.simple && k == 4 && o.noV {
			k = 0
		}
	}
	sub := o
	sub.depth--
	switch k {
	case 0, 1:
		return r.genInt(o)
	case 2:
		return &hT{kind: "float", size: 4 << r.rng.Intn(2), be: o.be && r.rng.Intn(2) == 0}
	case 3:
		n := 1 + r.rng.Intn(9)
		if r.rng.Intn(4) == 0 {
			n = 1
		}
		if o.noStr1 && n == 1 {
			n = 2
		}
		return &hT{kind: "str", size: n, pad: r.pick("n", "t", "s"), cset: r.rng.Intn(2)}
	case 4:
		if o.noV {
			return r.genInt(o)
		}
		return &hT{kind: "vstr", cset: r.rng.Intn(2)}
	case 5:
		t := &hT{kind: "enum", base: r.genInt(o)}
		used := map[string]bool{}
		seen := map[any]bool{}
		n := 1 + r.rng.Intn(5)
		if r.rng.Intn(25) == 0 {
			n = 200 + r.rng.Intn(300)
			t.base.size = 2
		}
		for i := n; i > 0; i-- {
			v := r.genVal(t.base)
			if seen[v] {
				continue
			}
			seen[v] = true
			nm := r.name(used)
			if i > 6 {
				nm = fmt.Sprintf("m%d", i)
			}
			t.names = append(t.names, nm)
			t.evals = append(t.evals, v)
		}
		return t
	case 6:
		return &hT{kind: "opaque", size: 1 + r.rng.Intn(20), tag: []string{"", "tag", "1234567", "12345678", "a tag of some length"}[r.rng.Intn(5)]}
	case 7:
		t := &hT{kind: "compound"}
		used := map[string]bool{}
		off := 0
		n := 1 + r.rng.Intn(5)
		if r.rng.Intn(25) == 0 {
			n = 250 + r.rng.Intn(50)
			sub.depth = 0
		}
		for i := 0; i < n; i++ {
			m := r.genType(sub)
			if r.rng.Intn(3) == 0 {
				off += r.rng.Intn(6)
			}
			if n < 10 {
				t.names = append(t.names, r.name(used))
			} else {
				t.names = append(t.names, fmt.Sprintf("f%d", i))
			}
			t.offs = append(t.offs, off)
			t.mem = append(t.mem, m)
			off += m.msize()
		}
		t.size = off + r.rng.Intn(2)*r.rng.Intn(5)
		// sizes around where the offsets of members take more bytes
		if k := r.rng.Intn(60); off <= 255 && k < 9 {
			t.size = 255 + k%3
		}
		return t
	case 8:
		t := &hT{kind: "array", base: r.genType(sub)}
		if t.base.hasVCompound() {
			// libhdf5 1.10 writes zeros for the inner sequences of such an array
			sub.noV = true
			t.base = r.genType(sub)
		}
		rank, top := 1+r.rng.Intn(3), 3
		if r.rng.Intn(8) == 0 {
			rank, top = 4+r.rng.Intn(3), 2
		}
		for ; rank > 0; rank-- {
			t.dims = append(t.dims, int64(1+r.rng.Intn(top)))
		}
		if t.msize() > 6000 {
			t.dims = []int64{1}
		}
		return t
	default:
		if o.noV {
			return r.genInt(o)
		}
		return &hT{kind: "vlen", base: r.genType(sub)}
	}
}

var rStrs = []string{"", "a", "hello", "été", "0123456", "01234567", "a longer string value", "日本", " x ", "end "}

// genVal: numbers, strings, []byte (opaque), []any (compound, array, vlen)
func (r *Run) genVal(t *hT) any {
	switch t.kind {
	case "int":
		n := fmt.Sprintf("int%d", 8*t.size)
		if !t.signed {
			n = "u" + n
		}
		return r.scalarVal(n)
	case "float":
		return r.scalarVal(fmt.Sprintf("float%d", 8*t.size))
	case "str":
		var b []byte
		n := r.rng.Intn(t.size + 1)
		if t.size == 1 && r.rng.Intn(8) > 0 {
			n = 1
		}
		if t.pad == "t" && n == t.size && t.size > 1 {
			n--
		}
		for i := 0; i < n; i++ {
			b = append(b, byte('a'+r.rng.Intn(26)))
		}
		if t.pad == "s" {
			for len(b) < t.size {
				b = append(b, ' ')
			}
		}
		return string(b)
	case "vstr":
		if r.rng.Intn(20) == 0 {
			return strings.Repeat("lorem ", r.rng.Intn(300))
		}
		return rStrs[r.rng.Intn(len(rStrs))]
	case "enum":
		return t.evals[r.rng.Intn(len(t.evals))]
	case "opaque":
		return randBytes(r.rng, int64(t.size))
	case "compound":
		var l []any
		for _, m := range t.mem {
			l = append(l, r.genVal(m))
		}
		return l
	case "array":
		var l []any
		for i := prod(t.dims); i > 0; i-- {
			l = append(l, r.genVal(t.base))
		}
		return l
	case "vlen":
		l := []any{}
		for i := r.rng.Intn(5); i > 0; i-- {
			l = append(l, r.genVal(t.base))
		}
		return l
	}
	panic(t.kind)
}

// zeroVal: the value made of zero bytes
func (t *hT) zeroVal() any {
	switch t.kind {
	case "int":
		return numFrom(t, make([]byte, t.size))
	case "float":
		return numFrom(t, make([]byte, t.size))
	case "str", "vstr":
		return ""
	case "enum":
		return numFrom(t.base, make([]byte, t.base.size))
	case "opaque":
		return make([]byte, t.size)
	case "compound":
		var l []any
		for _, m := range t.mem {
			l = append(l, m.zeroVal())
		}
		return l
	case "array":
		var l []any
		for i := prod(t.dims); i > 0; i-- {
			l = append(l, t.base.zeroVal())
		}
		return l
	}
	return []any{}
}

func numFrom(t *hT, b []byte) any {
	var u uint64
	for i := 0; i < t.size; i++ {
		k := i
		if t.be {
			k = t.size - 1 - i
		}
		u |= uint64(b[k]) << (8 * i)
	}
	if t.kind == "float" {
		if t.size == 4 {
			return math.Float32frombits(uint32(u))
		}
		return math.Float64frombits(u)
	}
	switch {
	case t.size == 1 && t.signed:
		return int8(u)
	case t.size == 1:
		return uint8(u)
	case t.size == 2 && t.signed:
		return int16(u)
	case t.size == 2:
		return uint16(u)
	case t.size == 4 && t.signed:
		return int32(u)
	case t.size == 4:
		return uint32(u)
	case t.signed:
		return int64(u)
	}
	return u
}

func numBits(v any) uint64 {
	switch x := v.(type) {
	case int8:
		return uint64(uint8(x))
	case uint8:
		return uint64(x)
	case int16:
		return uint64(uint16(x))
	case uint16:
		return uint64(x)
	case int32:
		return uint64(uint32(x))
	case uint32:
		return uint64(x)
	case int64:
		return uint64(x)
	case uint64:
		return x
	case float32:
		return uint64(math.Float32bits(x))
	case float64:
		return math.Float64bits(x)
	}
	panic(fmt.Sprintf("numBits %T", v))
}

// rawBytes: the stored bytes of a value of fixed-size type
func (t *hT) rawBytes(v any) []byte {
	switch t.kind {
	case "int", "float":
		b := make([]byte, 8)
		binary.LittleEndian.PutUint64(b, numBits(v))
		b = b[:t.size]
		if t.be {
			for i, j := 0, len(b)-1; i < j; i, j = i+1, j-1 {
				b[i], b[j] = b[j], b[i]
			}
		}
		return b
	case "enum":
		return t.base.rawBytes(v)
	case "str":
		b := make([]byte, t.size)
		copy(b, v.(string))
		return b
	case "opaque":
		return v.([]byte)
	case "compound":
		b := make([]byte, t.size)
		for i, m := range t.mem {
			copy(b[t.offs[i]:], m.rawBytes(v.([]any)[i]))
		}
		return b
	case "array":
		var b []byte
		for _, x := range v.([]any) {
			b = append(b, t.base.rawBytes(x)...)
		}
		return b
	}
	panic("rawBytes " + t.kind)
}

// tokens for h5tool
func (t *hT) tok(b *strings.Builder, v any) {
	switch t.kind {
	case "int", "float", "enum", "str", "opaque":
		b.WriteByte(' ')
		b.WriteString(hex.EncodeToString(t.rawBytes(v)))
	case "vstr":
		if v.(string) == "" && t.cset == 0 {
			b.WriteString(" -")
		} else {
			b.WriteString(" s" + hex.EncodeToString([]byte(v.(string))))
		}
	case "compound":
		for i, m := range t.mem {
			m.tok(b, v.([]any)[i])
		}
	case "array":
		for _, x := range v.([]any) {
			t.base.tok(b, x)
		}
	case "vlen":
		fmt.Fprintf(b, " %d", len(v.([]any)))
		for _, x := range v.([]any) {
			t.base.tok(b, x)
		}
	}
}

func (t *hT) toks(vals []any) string {
	var b strings.Builder
	for _, v := range vals {
		t.tok(&b, v)
	}
	return b.String()
}

// define sends the type to the tool, once per file
func (f *rFile) define(t *hT) int {
	if t.idGen == f.gen {
		return t.id
	}
	order := func(be bool) string {
		if be {
			return "B"
		}
		return "L"
	}
	var c string
	switch t.kind {
	case "int":
		s := "u"
		if t.signed {
			s = "s"
		}
		c = fmt.Sprintf("int %d %s %s", t.size, s, order(t.be))
	case "float":
		c = fmt.Sprintf("float %d %s", t.size, order(t.be))
	case "str":
		c = fmt.Sprintf("str %d %s %d", t.size, t.pad, t.cset)
	case "vstr":
		c = fmt.Sprintf("vstr %d", t.cset)
	case "enum":
		b := f.define(t.base)
		var s strings.Builder
		for i, n := range t.names {
			s.WriteString(" " + pct(n))
			t.base.tok(&s, t.evals[i])
		}
		c = fmt.Sprintf("enum %d %d%s", b, len(t.names), s.String())
	case "opaque":
		c = fmt.Sprintf("opaque %d %s", t.size, pct(t.tag))
	case "compound":
		var s strings.Builder
		for i, m := range t.mem {
			fmt.Fprintf(&s, " %s %d %d", pct(t.names[i]), t.offs[i], f.define(m))
		}
		c = fmt.Sprintf("compound %d %d%s", t.size, len(t.mem), s.String())
	case "array":
		b := f.define(t.base)
		s := ""
		for _, d := range t.dims {
			s += fmt.Sprintf(" %d", d)
		}
		c = fmt.Sprintf("array %d %d%s", b, len(t.dims), s)
	case "vlen":
		c = fmt.Sprintf("vlen %d", f.define(t.base))
	}
	t.id, t.idGen = f.nextID, f.gen
	f.nextID++
	f.tool.gen("type %d %s", t.id, c)
	return t.id
}

// ---- canonical form of values

type cn struct {
	kind string // leaf list compound enum opaque
	typ  string // element type of a list
	leaf string
	list []*cn
	name []string
}

func (c *cn) String() string {
	var b strings.Builder
	c.write(&b)
	return b.String()
}

func (c *cn) write(b *strings.Builder) {
	switch c.kind {
	case "leaf", "opaque":
		b.WriteString(c.leaf)
	case "list":
		b.WriteString("[]" + c.typ + "{")
		for _, x := range c.list {
			x.write(b)
			b.WriteByte(',')
		}
		b.WriteByte('}')
	case "compound":
		b.WriteString("compound{")
		for i, x := range c.list {
			b.WriteString(strconv.Quote(c.name[i]) + ":")
			x.write(b)
			b.WriteByte(',')
		}
		b.WriteByte('}')
	case "enum":
		b.WriteString("enum{")
		c.list[0].write(b)
		b.WriteByte('}')
	}
}

// canon: the canonical form of a value the library returned
func canon(v any) *cn { return canonV(reflect.ValueOf(v)) }

func canonV(v reflect.Value) *cn {
	if !v.IsValid() {
		return &cn{kind: "leaf", leaf: "nil"}
	}
	if v.Kind() == reflect.Interface {
		return canonV(v.Elem())
	}
	switch v.Type().Name() {
	case "compound":
		if v.Kind() == reflect.Slice {
			c := &cn{kind: "compound"}
			for i := 0; i < v.Len(); i++ {
				f := v.Index(i)
				c.name = append(c.name, f.Field(0).String())
				c.list = append(c.list, canonV(f.Field(1)))
			}
			return c
		}
	case "enumerated":
		return &cn{kind: "enum", list: []*cn{canonV(v.Field(0))}}
	case "opaque":
		if v.Kind() == reflect.Slice {
			b := make([]byte, v.Len())
			for i := range b {
				b[i] = byte(v.Index(i).Uint())
			}
			return &cn{kind: "opaque", leaf: "opaque:" + hex.EncodeToString(b)}
		}
	}
	switch v.Kind() {
	case reflect.Slice:
		c := &cn{kind: "list", typ: v.Type().Elem().String()}
		for i := 0; i < v.Len(); i++ {
			c.list = append(c.list, canonV(v.Index(i)))
		}
		return c
	case reflect.String:
		return &cn{kind: "leaf", leaf: strconv.Quote(v.String())}
	case reflect.Float32:
		return &cn{kind: "leaf", leaf: fmt.Sprintf("float32:%08x", math.Float32bits(float32(v.Float())))}
	case reflect.Float64:
		return &cn{kind: "leaf", leaf: fmt.Sprintf("float64:%016x", math.Float64bits(v.Float()))}
	case reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return &cn{kind: "leaf", leaf: fmt.Sprintf("%s:%d", v.Type(), v.Int())}
	case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return &cn{kind: "leaf", leaf: fmt.Sprintf("%s:%d", v.Type(), v.Uint())}
	}
	return &cn{kind: "leaf", leaf: fmt.Sprintf("%s?", v.Type())}
}

// gname: the Go type of a value of this type without dimensions
func (t *hT) gname() string {
	switch t.kind {
	case "int":
		if t.signed {
			return fmt.Sprintf("int%d", 8*t.size)
		}
		return fmt.Sprintf("uint%d", 8*t.size)
	case "float":
		return fmt.Sprintf("float%d", 8*t.size)
	case "str", "vstr":
		return "string"
	case "enum":
		return "hdf5.enumerated"
	case "opaque":
		return "hdf5.opaque"
	case "compound":
		return "hdf5.compound"
	case "array":
		return t.gnameDims(0)
	case "vlen":
		return "[]" + t.base.gname()
	}
	panic(t.kind)
}

func (t *hT) gnameDims(n int) string {
	switch {
	case t.kind == "array":
		return t.base.gnameDims(n + len(t.dims))
	case t.kind == "enum":
		return "hdf5.enumerated"
	case t.kind == "str" && t.size == 1 && n > 0:
		n--
	}
	return strings.Repeat("[]", n) + t.gname()
}

func flatten(vals []any) []any {
	var out []any
	for _, v := range vals {
		out = append(out, v.([]any)...)
	}
	return out
}

// expect: the canonical form of an array of the given shape
func (t *hT) expect(dims []int64, vals []any) *cn {
	switch t.kind {
	case "array":
		return t.base.expect(append(append([]int64{}, dims...), t.dims...), flatten(vals))
	case "enum":
		return &cn{kind: "enum", list: []*cn{t.base.expect(dims, vals)}}
	}
	if t.kind == "str" && t.size == 1 && len(dims) > 0 {
		n := int(dims[len(dims)-1])
		dims = dims[:len(dims)-1]
		var nv []any
		for i := 0; i < int(prod(dims)); i++ {
			s := ""
			for _, c := range vals[i*n : (i+1)*n] {
				if c.(string) == "" {
					s += "\x00"
				}
				s += c.(string)
			}
			nv = append(nv, strings.TrimRight(s, "\x00"))
		}
		vals = nv
	}
	if len(dims) == 0 {
		return t.expect1(vals[0])
	}
	c := &cn{kind: "list", typ: strings.Repeat("[]", len(dims)-1) + t.gname()}
	n := int(dims[0])
	sz := int(prod(dims[1:]))
	if t.kind == "str" && t.size == 1 {
		for i := 0; i < n; i++ {
			c.list = append(c.list, strList(dims[1:], vals[i*sz:(i+1)*sz]))
		}
		return c
	}
	for i := 0; i < n; i++ {
		c.list = append(c.list, t.expect(dims[1:], vals[i*sz:(i+1)*sz]))
	}
	return c
}

func strList(dims []int64, vals []any) *cn {
	if len(dims) == 0 {
		return &cn{kind: "leaf", leaf: strconv.Quote(vals[0].(string))}
	}
	c := &cn{kind: "list", typ: strings.Repeat("[]", len(dims)-1) + "string"}
	sz := int(prod(dims[1:]))
	for i := 0; i < int(dims[0]); i++ {
		c.list = append(c.list, strList(dims[1:], vals[i*sz:(i+1)*sz]))
	}
	return c
}

func (t *hT) expect1(v any) *cn {
	switch t.kind {
	case "int", "float", "str", "vstr":
		return canon(v)
	case "opaque":
		return &cn{kind: "opaque", leaf: "opaque:" + hex.EncodeToString(v.([]byte))}
	case "compound":
		c := &cn{kind: "compound", name: t.names}
		for i, m := range t.mem {
			c.list = append(c.list, m.expect(nil, v.([]any)[i:i+1]))
		}
		return c
	case "vlen":
		c := &cn{kind: "list", typ: t.base.gname()}
		for _, x := range v.([]any) {
			c.list = append(c.list, t.base.expect(nil, []any{x}))
		}
		return c
	}
	panic(t.kind)
}

// undo: a one-element attribute comes back as its element
func (c *cn) undo() *cn {
	switch {
	case c.kind == "enum":
		return &cn{kind: "enum", list: []*cn{c.list[0].undo()}}
	case c.kind == "list" && len(c.list) == 1:
		return c.list[0]
	}
	return c
}

// empty lists: the nesting below a length of zero is not compared
func sameCn(a, b *cn) bool {
	if a.kind != b.kind {
		return false
	}
	switch a.kind {
	case "leaf", "opaque":
		return a.leaf == b.leaf
	case "enum":
		return sameCn(a.list[0], b.list[0])
	case "compound":
		if fmt.Sprintf("%q", a.name) != fmt.Sprintf("%q", b.name) {
			return false
		}
	case "list":
		if len(a.list) != len(b.list) || a.typ != b.typ {
			return false
		}
	}
	if len(a.list) != len(b.list) {
		return false
	}
	for i := range a.list {
		if !sameCn(a.list[i], b.list[i]) {
			return false
		}
	}
	return true
}

// ---- type texts

// text: the CDL (go=false) or Go text of the type; names of committed types are used for the parts
func (t *hT) text(goText bool, self string, top bool, dict map[string]string) string {
	return strings.ReplaceAll(t.textP(goText, selfName, top, dict), selfName, self)
}

// selfName stands for the name of what the type is printed for, which the Go text of an enum has
const selfName = "\x01"

func (t *hT) textP(goText bool, self string, top bool, dict map[string]string) string {
	res := func(sig string) string {
		if top {
			return sig
		}
		if n, has := dict[sig]; has {
			return n
		}
		return sig
	}
	switch t.kind {
	case "int":
		if goText {
			return t.gname()
		}
		u := ""
		if !t.signed {
			u = "u"
		}
		return u + map[int]string{1: "byte", 2: "short", 4: "int", 8: "int64"}[t.size]
	case "float":
		if goText {
			return t.gname()
		}
		return map[int]string{4: "float", 8: "double"}[t.size]
	case "str", "vstr":
		return "string"
	case "opaque":
		if goText {
			return res(fmt.Sprintf("[%d]uint8", t.size))
		}
		return res(fmt.Sprintf("opaque(%d)", t.size))
	case "enum":
		b := t.base.textP(goText, self, false, dict)
		var l []string
		for i, n := range t.names {
			switch {
			case goText && i == 0:
				l = append(l, fmt.Sprintf("\t%s %s = %v", n, self, t.evals[i]))
			default:
				l = append(l, fmt.Sprintf("\t%s = %v", n, t.evals[i]))
			}
		}
		if goText {
			return res(b + "\nconst (\n" + strings.Join(l, "\n") + "\n)\n")
		}
		return res(b + " enum {\n" + strings.Join(l, ",\n") + "\n}")
	case "compound":
		var l []string
		for i, m := range t.mem {
			if goText {
				l = append(l, fmt.Sprintf("\t%s %s", t.names[i], m.textP(goText, self, false, dict)))
			} else {
				l = append(l, fmt.Sprintf("\t%s %s;\n", m.textP(goText, self, false, dict), t.names[i]))
			}
		}
		if goText {
			return res("struct {\n" + strings.Join(l, "\n") + "\n}\n")
		}
		return res("compound {\n" + strings.Join(l, "") + "}")
	case "array":
		b := t.base.textP(goText, self, false, dict)
		var l []string
		for _, d := range t.dims {
			l = append(l, fmt.Sprint(d))
		}
		if goText {
			return "[" + strings.Join(l, "][") + "]" + b
		}
		return b + "(" + strings.Join(l, ",") + ")"
	case "vlen":
		b := t.base.textP(goText, self, false, dict)
		if goText {
			return res("[]" + b)
		}
		return res(b + "(*)")
	}
	panic(t.kind)
}
