package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math/bits"
	"os"
	"strings"

	"github.com/batchatco/go-native-netcdf/netcdf/api"
	"github.com/batchatco/go-native-netcdf/netcdf/hdf5"
)

// Corrupted metadata and data are reported (H03).

// lookup3: Jenkins' hashlittle, after the format's reference
func lookup3(k []byte, init uint32) uint32 {
	a := 0xdeadbeef + uint32(len(k)) + init
	b, c := a, a
	w := func(i int) (x uint32) {
		for j := 3; j >= 0; j-- {
			x <<= 8
			if i+j < len(k) {
				x |= uint32(k[i+j])
			}
		}
		return
	}
	for len(k) > 12 {
		a += w(0)
		b += w(4)
		c += w(8)
		a -= c
		a ^= bits.RotateLeft32(c, 4)
		c += b
		b -= a
		b ^= bits.RotateLeft32(a, 6)
		a += c
		c -= b
		c ^= bits.RotateLeft32(b, 8)
		b += a
		a -= c
		a ^= bits.RotateLeft32(c, 16)
		c += b
		b -= a
		b ^= bits.RotateLeft32(a, 19)
		a += c
		c -= b
		c ^= bits.RotateLeft32(b, 4)
		b += a
		k = k[12:]
	}
	if len(k) == 0 {
		return c
	}
	a += w(0)
	b += w(4)
	c += w(8)
	c ^= b
	c -= bits.RotateLeft32(b, 14)
	a ^= c
	a -= bits.RotateLeft32(c, 11)
	b ^= a
	b -= bits.RotateLeft32(a, 25)
	c ^= b
	c -= bits.RotateLeft32(b, 16)
	a ^= c
	a -= bits.RotateLeft32(c, 4)
	b ^= a
	b -= bits.RotateLeft32(a, 14)
	c ^= b
	c -= bits.RotateLeft32(b, 24)
	return c
}

type block struct {
	sig      string
	at, size int // with the checksum
}

// blocks finds the checksummed metadata by its signatures
func blocks(b []byte) []block {
	var out []block
	if len(b) > 48 && b[8] >= 2 {
		out = append(out, block{"superblock", 0, 48})
	}
	for p := 0; p+16 < len(b); p++ {
		sig := string(b[p : p+4])
		switch sig {
		case "OHDR", "OCHK", "BTHD", "BTIN", "BTLF", "FRHP":
			// the length that makes the checksum right
			for n := 12; n < 8000 && p+n+4 <= len(b); n++ {
				if lookup3(b[p:p+n], 0) == binary.LittleEndian.Uint32(b[p+n:]) {
					out = append(out, block{sig, p, n + 4})
					break
				}
			}
		case "FHDB", "FHIB":
			// direct blocks have the checksum in the header: 4+1+8, offset of 2..8 bytes
			for _, o := range []int{2, 3, 4, 5, 8} {
				q := p + 13 + o
				done := false
				for _, n := range []int{512, 1024, 2048, 4096, 8192, 16384, 32768, 65536} {
					if sig == "FHDB" && p+n <= len(b) && q+4 <= len(b) {
						c := bytes.Clone(b[p : p+n])
						copy(c[13+o:], []byte{0, 0, 0, 0})
						if lookup3(c, 0) == binary.LittleEndian.Uint32(b[q:]) {
							out = append(out, block{sig, p, n})
							done = true
							break
						}
					}
				}
				if done {
					break
				}
			}
			if sig == "FHIB" {
				for n := 20; n < 3000 && p+n+4 <= len(b); n++ {
					if lookup3(b[p:p+n], 0) == binary.LittleEndian.Uint32(b[p+n:]) {
						out = append(out, block{sig, p, n + 4})
						break
					}
				}
			}
		}
	}
	return out
}

// readAll describes everything in the file; "" and an error if anything is reported
func readAll(path string) (text string, err error) {
	err = protect(func() error {
		root, err := hdf5.Open(path)
		if err != nil {
			return err
		}
		defer root.Close()
		var b strings.Builder
		var rec func(g api.Group, p string) error
		rec = func(g api.Group, p string) error {
			fmt.Fprintf(&b, "group %s %s types %q dims %q\n", p, attText(g.Attributes()), g.ListTypes(), g.ListDimensions())
			for _, n := range g.ListVariables() {
				v, err := g.GetVariable(n)
				if err != nil {
					return fmt.Errorf("variable %s: %w", n, err)
				}
				fmt.Fprintf(&b, "var %q %q %s %s\n", n, v.Dimensions, canon(v.Values), attText(v.Attributes))
			}
			for _, n := range g.ListSubgroups() {
				sg, err := g.GetGroup(n)
				if err != nil {
					return fmt.Errorf("group %s: %w", n, err)
				}
				err = rec(sg, p+"/"+n)
				sg.Close()
				if err != nil {
					return err
				}
			}
			return nil
		}
		err = rec(root, "")
		text = b.String()
		return err
	})
	return
}

func corruption(r *Run) {
	quiet()
	t := r.h5tool()
	defer t.stop()
	path := r.dir + "/corrupt.h5"
	for i := 0; i < r.n(150, 3000) && !r.expired(); i++ {
		f := r.newRFile(t, []string{"v18", "v18", "latest"}[i%3], r.rng.Intn(2) == 0, (&tree{r: r}).phases(), 0)
		tr := &tree{r: r, f: f, used: map[*rGroup]map[string]bool{}}
		g := f.root
		if r.rng.Intn(2) == 0 {
			g = tr.group(g, tr.fresh(g, true), tr.phases())
		}
		for k := []int{2, 9, 30, 70}[r.rng.Intn(4)]; k > 0; k-- {
			tr.leaf(g, tr.fresh(g, true))
		}
		for k := []int{1, 5, 12, 40}[r.rng.Intn(4)]; k > 0; k-- {
			g.atts = append(g.atts, tr.att(g.path, fmt.Sprintf("att%d", k), false))
		}
		src := f.path
		part := "library's metadata"
		desc := f.String()
		f.close()
		if i%5 == 4 {
			p := r.hRandProgram(hOpts{vlen: i%2 == 0})
			src = r.dir + "/w.h5"
			if err, _ := hWriteProgram(src, p); err != nil {
				continue
			}
			part, desc = "writer's metadata", p.String()
		}
		data, _ := os.ReadFile(src)
		plain, err := readAll(src)
		if err != nil {
			r.Fail("valid-file", part+": "+err.Error()+"\n"+desc, data)
			continue
		}
		bl := blocks(data)
		for k := 0; k < 25 && k < 3*len(bl); k++ {
			b := bl[r.rng.Intn(len(bl))]
			c := bytes.Clone(data)
			at := b.at + r.rng.Intn(b.size)
			switch r.rng.Intn(3) {
			case 0: // the checksum
				at = b.at + b.size - 4 + r.rng.Intn(4)
			case 1:
				at = b.at + 4 + r.rng.Intn(min(b.size-4, 30))
			}
			bit := byte(1) << r.rng.Intn(8)
			c[at] ^= bit
			if r.rng.Intn(4) == 0 {
				at = b.at + b.size - 4
				if b.sig != "FHDB" {
					copy(c[at:], []byte{0, 0, 0, 0})
				}
			}
			if bytes.Equal(c, data) {
				continue
			}
			os.WriteFile(path, c, 0o644)
			r.Case(part+" "+b.sig, fmt.Sprintf("%s block at %d+%d, byte %d bit %#x of\n%s", b.sig, b.at, b.size, at, bit, desc))
			text, err := readAll(path)
			if err != nil && isPanic(err) {
				r.Fail("panic-"+b.sig, fmt.Sprintf("%s: %s block at %d+%d, byte %d bit %#x: %v", part, b.sig, b.at, b.size, at, bit, err), c)
			}
			// indexes by creation order are not needed for reading
			spare := strings.HasPrefix(b.sig, "BT")
			if b.sig[:2] == "BT" {
				spare = data[b.at+5] == 6 || data[b.at+5] == 9 || data[b.at+5] == 7
			}
			if err == nil && (!spare || text != plain) {
				r.Fail("used-"+b.sig, fmt.Sprintf("%s: the %s block at %d+%d is used although byte %d (bit %#x) is wrong\n%s", part, b.sig, b.at, b.size, at, bit, desc), c)
			}
		}
	}
	for i := 0; i < r.n(250, 5000) && !r.expired(); i++ {
		f := r.newRFile(t, r.libs(), false, noPhase(), 0)
		v := &rVar{name: "v", t: r.genInt(tOpts{be: true}), layout: "chunked", fill: "default"}
		v.dims = []int64{int64(1 + r.rng.Intn(40))}
		v.chunk = []int64{int64(1 + r.rng.Intn(45))}
		v.filts = [][]string{{"f"}, {"s", "f"}, {"d", "f"}, {"s", "d", "f"}}[r.rng.Intn(4)]
		f.dset(f.root, v, true, "default", "default", 0, [2]int{-1, -1})
		for j := int64(0); j < v.dims[0]; j++ {
			v.vals = append(v.vals, v.missing())
		}
		f.wchunk(r, f.root, v, []int64{v.chunk[0] * r.rng.Int63n((v.dims[0]+v.chunk[0]-1)/v.chunk[0])}, 0)
		f.close()
		data, _ := os.ReadFile(f.path)
		if _, err := readAll(f.path); err != nil {
			r.Fail("valid-file", err.Error()+"\n"+f.String(), data)
			continue
		}
		p := bytes.Index(data, f.last)
		if p < 0 || bytes.Count(data, f.last) > 1 || len(f.last) < 8 {
			continue
		}
		for k := 0; k < 4; k++ {
			c := bytes.Clone(data)
			at := p + r.rng.Intn(len(f.last))
			if k == 0 {
				at = p + len(f.last) - 4 + r.rng.Intn(4)
			}
			bit := byte(1) << r.rng.Intn(8)
			c[at] ^= bit
			os.WriteFile(path, c, 0o644)
			r.Case("Fletcher-32", fmt.Sprintf("byte %d bit %#x of chunk of %d in\n%s", at-p, bit, len(f.last), f.String()))
			_, err := readAll(path)
			if err == nil {
				r.Fail("fletcher", fmt.Sprintf("a chunk whose byte %d of %d is wrong is accepted\n%s", at-p, len(f.last), f.String()), c)
			} else if isPanic(err) {
				r.Fail("fletcher-panic", err.Error()+"\n"+f.String(), c)
			}
		}
	}
}

func init() { register("H03", corruption) }
