package main

import (
	"bytes"
	"encoding/binary"
	"encoding/hex"
	"fmt"
	"sort"
)

// h5Walk checks the structure of a written file against the format, reading
// the bytes only: every header, message, heap and data size covers exactly
// what it says, every address points at what it names, every checksum is
// right, nothing overlaps, and the dimension ids are 0..n-1.
type walker struct {
	b      []byte
	regs   []region
	heads  map[uint64]bool
	refs   []uint64
	heaps  map[uint64]map[int][]byte
	dimids []int
	nscale int
}

type region struct {
	from, to uint64
	what     string
}

type walkErr string

func (w *walker) bad(f string, a ...any) { panic(walkErr(fmt.Sprintf(f, a...))) }

func (w *walker) at(addr, n uint64, what string) []byte {
	if addr > uint64(len(w.b)) || n > uint64(len(w.b))-addr {
		w.bad("%s at %d, %d bytes, reaches past the end of the file (%d)", what, addr, n, len(w.b))
	}
	return w.b[addr : addr+n]
}

func (w *walker) reg(from, n uint64, what string) {
	if n > 0 {
		w.at(from, n, what)
		w.regs = append(w.regs, region{from, from + n, what})
	}
}

func h5Walk(b []byte) (msg string) {
	w := &walker{b: b, heads: map[uint64]bool{}, heaps: map[uint64]map[int][]byte{}}
	defer func() {
		if e := recover(); e != nil {
			if m, ok := e.(walkErr); ok {
				msg = string(m)
				return
			}
			msg = fmt.Sprint("the structure cannot be followed: ", e)
		}
	}()
	le := binary.LittleEndian
	s := w.at(0, 48, "superblock")
	if string(s[:8]) != "\x89HDF\r\n\x1a\n" || s[8] < 2 || s[9] != 8 || s[10] != 8 {
		w.bad("superblock %x", s)
	}
	if le.Uint64(s[12:]) != 0 || le.Uint64(s[20:]) != ^uint64(0) || le.Uint64(s[28:]) != uint64(len(b)) {
		w.bad("superblock addresses %x, file length %d", s, len(b))
	}
	if lookup3(s[:44], 0) != le.Uint32(s[44:]) {
		w.bad("superblock checksum")
	}
	w.reg(0, 48, "superblock")
	w.header(le.Uint64(s[36:]), "/")
	for _, a := range w.refs {
		if !w.heads[a] {
			w.bad("a reference to %d, which is no object of the file", a)
		}
	}
	sort.Slice(w.regs, func(i, j int) bool { return w.regs[i].from < w.regs[j].from })
	for i := 1; i < len(w.regs); i++ {
		p, q := w.regs[i-1], w.regs[i]
		if q.from < p.to {
			w.bad("%s [%d,%d) overlaps %s [%d,%d)", p.what, p.from, p.to, q.what, q.from, q.to)
		}
	}
	if n := len(w.regs); w.regs[n-1].to+8 <= uint64(len(b)) {
		w.bad("the file ends %d bytes after its last structure", uint64(len(b))-w.regs[n-1].to)
	}
	sort.Ints(w.dimids)
	for i, d := range w.dimids {
		if d != i {
			w.bad("dimension ids %v are not 0..%d", w.dimids, len(w.dimids)-1)
		}
	}
	if len(w.dimids) != w.nscale {
		w.bad("%d dimension scales, %d dimension ids", w.nscale, len(w.dimids))
	}
	return ""
}

func (w *walker) header(addr uint64, path string) {
	le := binary.LittleEndian
	if w.heads[addr] {
		w.bad("two links to the object at %d (%s)", addr, path)
	}
	w.heads[addr] = true
	h := w.at(addr, 6, "object header of "+path)
	if string(h[:4]) != "OHDR" || h[4] != 2 {
		w.bad("no object header at %d (%s)", addr, path)
	}
	p := addr + 6
	if h[5]&0x20 != 0 {
		p += 16
	}
	if h[5]&0x10 != 0 {
		p += 4
	}
	var size uint64
	for i, c := range w.at(p, 1<<(h[5]&3), "chunk size") {
		size |= uint64(c) << (8 * i)
	}
	p += 1 << (h[5] & 3)
	body := w.at(p, size+4, "object header of "+path)
	if lookup3(w.b[addr:p+size], 0) != le.Uint32(body[size:]) {
		w.bad("checksum of the object header of %s", path)
	}
	w.reg(addr, p+size+4-addr, "object header of "+path)
	body = body[:size]
	var dt, ds, lay []byte
	count := map[byte]int{}
	type lnk struct {
		name string
		addr uint64
	}
	var links []lnk
	names := map[string]bool{}
	gap := false
	for len(body) > 0 {
		if len(body) < 4 {
			if !gap {
				w.bad("%d stray bytes in the object header of %s", len(body), path)
			}
			break
		}
		t, n, fl := body[0], int(le.Uint16(body[1:])), body[3]
		body = body[4:]
		if h[5]&4 != 0 {
			body = body[2:]
		}
		if n > len(body) {
			w.bad("message type %d of %s, %d bytes, in a header with %d left", t, path, n, len(body))
		}
		if fl&^0x3f != 0 || fl&2 != 0 {
			w.bad("message type %d of %s has flags %#x", t, path, fl)
		}
		m := body[:n]
		body = body[n:]
		count[t]++
		switch t {
		case 0:
			gap = true
		case 1:
			ds = m
		case 3:
			dt = m
			if k := w.dtLen(dt); k != len(dt) {
				w.bad("datatype of %s: %d bytes of %d", path, k, len(dt))
			}
		case 8:
			lay = m
		case 6:
			if m[0] != 1 {
				w.bad("link version %d", m[0])
			}
			f, q := m[1], 2
			if f&8 != 0 {
				q++
			}
			if f&4 != 0 {
				q += 8
			}
			if f&16 != 0 {
				q++
			}
			var ln int
			for i := 0; i < 1<<(f&3); i++ {
				ln |= int(m[q+i]) << (8 * i)
			}
			q += 1 << (f & 3)
			if len(m) != q+ln+8 {
				w.bad("link message in %s: %d bytes, a name of %d", path, len(m), ln)
			}
			nm := string(m[q : q+ln])
			if names[nm] || nm == "" {
				w.bad("link %q twice in %s", nm, path)
			}
			names[nm] = true
			links = append(links, lnk{nm, le.Uint64(m[q+ln:])})
		case 12:
			w.attr(m, path)
		}
	}
	if count[1] > 1 || count[3] > 1 || count[8] > 1 || count[2] > 1 {
		w.bad("messages of %s: %v", path, count)
	}
	if lay != nil {
		if dt == nil || ds == nil {
			w.bad("dataset %s without type or shape", path)
		}
		n := w.dsCount(ds, path)
		sz := n * uint64(le.Uint32(dt[4:]))
		if lay[0] != 3 || lay[1] != 1 || len(lay) != 18 {
			w.bad("layout of %s: %x", path, lay)
		}
		a, l := le.Uint64(lay[2:]), le.Uint64(lay[10:])
		if l != sz {
			w.bad("dataset %s: layout of %d bytes for %d elements of %d", path, l, n, le.Uint32(dt[4:]))
		}
		if a == ^uint64(0) {
			if sz != 0 {
				w.bad("dataset %s has no storage for %d bytes", path, sz)
			}
		} else {
			w.reg(a, l, "data of "+path)
			w.data(dt, w.at(a, l, "data of "+path), n, path)
		}
	} else if dt != nil || ds != nil {
		w.bad("object %s with type or shape but no layout", path)
	} else if count[2] != 1 {
		w.bad("group %s without link info", path)
	}
	for _, l := range links {
		if lay != nil {
			w.bad("links in dataset %s", path)
		}
		w.header(l.addr, path+l.name+"/")
	}
}

func (w *walker) attr(m []byte, path string) {
	le := binary.LittleEndian
	if m[0] < 1 || m[0] > 3 || m[1] != 0 {
		w.bad("attribute version %d of %s", m[0], path)
	}
	nn, nt, ns, p := int(le.Uint16(m[2:])), int(le.Uint16(m[4:])), int(le.Uint16(m[6:])), 8
	if m[0] == 3 {
		p++
	}
	cut := func(n int, what string) []byte {
		r := n
		if m[0] == 1 {
			r = (n + 7) &^ 7
		}
		if p+r > len(m) {
			w.bad("attribute of %s: %s of %d in a message of %d", path, what, n, len(m))
		}
		p += r
		return m[p-r : p-r+n]
	}
	name := cut(nn, "name")
	dt := cut(nt, "datatype")
	ds := cut(ns, "dataspace")
	d := m[p:]
	if bytes.IndexByte(name, 0) != nn-1 {
		w.bad("attribute name %q of %s is not ended by its only NUL", name, path)
	}
	nm := string(name[:nn-1])
	if k := w.dtLen(dt); k != nt {
		w.bad("datatype of attribute %s of %s: %d bytes of %d", nm, path, k, nt)
	}
	n := w.dsCount(ds, path+" "+nm)
	if uint64(len(d)) != n*uint64(le.Uint32(dt[4:])) {
		w.bad("attribute %s of %s: %d bytes for %d elements of %d", nm, path, len(d), n, le.Uint32(dt[4:]))
	}
	w.data(dt, d, n, path+" "+nm)
	switch nm {
	case "CLASS":
		if string(bytes.TrimRight(d, "\x00")) == "DIMENSION_SCALE" {
			w.nscale++
		}
	case "_Netcdf4Dimid":
		if len(d) != 4 {
			w.bad("_Netcdf4Dimid of %s: %x", path, d)
		}
		w.dimids = append(w.dimids, int(int32(le.Uint32(d))))
	}
}

func (w *walker) dsCount(s []byte, path string) uint64 {
	var rank, fl, p int
	switch s[0] {
	case 1:
		rank, fl, p = int(s[1]), int(s[2]), 8
	case 2:
		rank, fl, p = int(s[1]), int(s[2]), 4
		if s[3] == 2 {
			if len(s) != 4 || rank != 0 {
				w.bad("null dataspace %x", s)
			}
			return 0
		}
		if (s[3] == 0) != (rank == 0) {
			w.bad("dataspace kind %d with rank %d (%s)", s[3], rank, path)
		}
	default:
		w.bad("dataspace version %d", s[0])
	}
	k := rank * 8
	if fl&1 != 0 {
		k *= 2
	}
	if len(s) != p+k {
		w.bad("dataspace of %s: %d bytes for rank %d, flags %d", path, len(s), rank, fl)
	}
	n := uint64(1)
	for i := 0; i < rank; i++ {
		d := binary.LittleEndian.Uint64(s[p+8*i:])
		if fl&1 != 0 && binary.LittleEndian.Uint64(s[p+8*(rank+i):]) < d {
			w.bad("dimension %d of %s is over its maximum", i, path)
		}
		n *= d
	}
	return n
}

// dtLen: how many bytes the datatype's encoding takes
func (w *walker) dtLen(d []byte) int {
	le := binary.LittleEndian
	ver, cl, size := d[0]>>4, d[0]&15, int(le.Uint32(d[4:]))
	if size == 0 && cl != 3 && cl != 5 {
		w.bad("datatype of size 0: %x", d)
	}
	switch cl {
	case 0, 4:
		if o, p := int(le.Uint16(d[8:])), int(le.Uint16(d[10:])); o != 0 || p != 8*size {
			w.bad("integer type of %d bytes with bits %d+%d", size, o, p)
		}
		return 12
	case 1:
		if int(le.Uint16(d[10:])) != 8*size {
			w.bad("float type of %d bytes with %d bits", size, le.Uint16(d[10:]))
		}
		return 20
	case 3, 7:
		return 8
	case 5:
		return 8 + int(d[1])
	case 9:
		if size != 16 {
			w.bad("variable-length type of size %d", size)
		}
		return 8 + w.dtLen(d[8:])
	case 6:
		if ver != 3 {
			w.bad("compound version %d", ver)
		}
		n, p, end := int(le.Uint16(d[1:])), 8, 0
		nb := 1
		for x := size; x > 255; x >>= 8 {
			nb++
		}
		for i := 0; i < n; i++ {
			p += bytes.IndexByte(d[p:], 0) + 1
			off := 0
			for j := 0; j < nb; j++ {
				off |= int(d[p+j]) << (8 * j)
			}
			p += nb
			if off != end {
				w.bad("member %d of a compound at %d, the one before ends at %d", i, off, end)
			}
			end = off + int(le.Uint32(d[p+4:]))
			p += w.dtLen(d[p:])
		}
		if end != size {
			w.bad("members take %d of %d bytes", end, size)
		}
		return p
	case 8:
		if ver != 3 {
			w.bad("enum version %d", ver)
		}
		n, p := int(le.Uint16(d[1:])), 8+w.dtLen(d[8:])
		if int(le.Uint32(d[12:])) != size {
			w.bad("enum of size %d over a base of size %d", size, le.Uint32(d[12:]))
		}
		for i := 0; i < n; i++ {
			p += bytes.IndexByte(d[p:], 0) + 1
		}
		return p + n*size
	case 10:
		if ver != 3 {
			w.bad("array version %d", ver)
		}
		k, n := int(d[8]), 1
		for i := 0; i < k; i++ {
			n *= int(le.Uint32(d[9+4*i:]))
		}
		if q := 9 + 4*k; n*int(le.Uint32(d[q+4:])) != size {
			w.bad("array type of %d bytes for %d elements", size, n)
		}
		return 9 + 4*k + w.dtLen(d[9+4*k:])
	}
	w.bad("datatype class %d", cl)
	return 0
}

// data follows what the values point at
func (w *walker) data(dt, d []byte, n uint64, path string) {
	le := binary.LittleEndian
	size := uint64(le.Uint32(dt[4:]))
	for i := uint64(0); i < n && size > 0; i++ {
		e := d[i*size : (i+1)*size]
		switch dt[0] & 15 {
		case 7:
			if a := le.Uint64(e); a != 0 && a != ^uint64(0) {
				w.refs = append(w.refs, a)
			} else {
				w.bad("null reference in %s", path)
			}
		case 9:
			ln, a, ix := uint64(le.Uint32(e)), le.Uint64(e[4:]), int(le.Uint32(e[12:]))
			if ln == 0 && (a == 0 || a == ^uint64(0)) {
				continue
			}
			o, has := w.heap(a)[ix]
			if !has {
				w.bad("%s: no object %d in the heap at %d", path, ix, a)
			}
			if bs := uint64(le.Uint32(dt[12:])); uint64(len(o)) != ln*bs {
				w.bad("%s: %d elements of %d in a heap object of %d bytes (%s)", path, ln, bs, len(o), hex.EncodeToString(o[:min(8, len(o))]))
			}
			w.data(dt[8:], o, ln, path)
		case 6:
			nb := 1
			for x := size; x > 255; x >>= 8 {
				nb++
			}
			p := 8
			for j := 0; j < int(le.Uint16(dt[1:])); j++ {
				p += bytes.IndexByte(dt[p:], 0) + 1
				off := uint64(0)
				for k := 0; k < nb; k++ {
					off |= uint64(dt[p+k]) << (8 * k)
				}
				p += nb
				w.data(dt[p:], e[off:off+uint64(le.Uint32(dt[p+4:]))], 1, path)
				p += w.dtLen(dt[p:])
			}
		default:
			return
		}
	}
}

func (w *walker) heap(a uint64) map[int][]byte {
	if m := w.heaps[a]; m != nil {
		return m
	}
	le := binary.LittleEndian
	h := w.at(a, 16, "heap")
	size := le.Uint64(h[8:])
	if string(h[:4]) != "GCOL" || h[4] != 1 || size < 4096 && size < 16 || a%8 != 0 {
		w.bad("no heap collection at %d: %x", a, h)
	}
	w.reg(a, size, fmt.Sprintf("heap at %d", a))
	b := w.at(a, size, "heap")[16:]
	m := map[int][]byte{}
	for len(b) >= 16 {
		ix, n := int(le.Uint16(b)), le.Uint64(b[8:])
		if ix == 0 {
			if n != uint64(len(b)) {
				w.bad("free space of %d in a heap with %d left", n, len(b))
			}
			b = nil
			break
		}
		if m[ix] != nil {
			w.bad("heap object %d twice", ix)
		}
		if r := (n + 7) &^ 7; n > uint64(len(b)) || r > uint64(len(b))-16 {
			w.bad("heap object %d of %d bytes, %d left", ix, n, len(b)-16)
		} else {
			m[ix] = b[16 : 16+n : 16+n]
			if n == 0 {
				m[ix] = []byte{}
			}
			b = b[16+r:]
		}
	}
	if len(b) != 0 {
		for _, c := range b {
			if c != 0 {
				w.bad("stray bytes at the end of the heap at %d", a)
			}
		}
	}
	w.heaps[a] = m
	return m
}
