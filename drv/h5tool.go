package main

import (
	"bufio"
	"encoding/binary"
	"encoding/hex"
	"fmt"
	"io"
	"math"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"strings"
)

// H5Tool runs the HDF5 C library as an independent writer and reader (h5tool.c).
type H5Tool struct {
	cmd  *exec.Cmd
	in   io.WriteCloser
	out  *bufio.Reader
	log  []string
	nerr int
}

var toolBin string

func (r *Run) h5tool() *H5Tool {
	if toolBin == "" {
		home := os.Getenv("VERIF_HOME")
		if home == "" {
			home = "/verif"
		}
		bin := filepath.Join(r.dir, "h5tool")
		cfl, _ := exec.Command("pkg-config", "--cflags", "hdf5").Output()
		lfl, _ := exec.Command("pkg-config", "--libs", "hdf5").Output()
		args := []string{"-O1", "-w", "-o", bin, filepath.Join(home, "drv", "h5tool.c")}
		args = append(args, strings.Fields(string(cfl))...)
		args = append(args, "-L/usr/lib/x86_64-linux-gnu/hdf5/serial")
		args = append(args, "-lhdf5_hl")
		args = append(args, strings.Fields(string(lfl))...)
		if o, err := exec.Command("gcc", args...).CombinedOutput(); err != nil {
			fmt.Fprintln(os.Stderr, "h5tool does not build:", err, string(o))
			os.Exit(3)
		}
		toolBin = bin
	}
	t := &H5Tool{}
	t.cmd = exec.Command(toolBin)
	t.cmd.Stderr = os.Stderr
	t.in, _ = t.cmd.StdinPipe()
	o, _ := t.cmd.StdoutPipe()
	t.out = bufio.NewReaderSize(o, 1<<20)
	if err := t.cmd.Start(); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	return t
}

func (t *H5Tool) stop() { t.in.Close(); t.cmd.Wait() }

// do sends one command and returns the reply lines and whether it succeeded.
func (t *H5Tool) do(format string, a ...any) ([]string, error) {
	c := fmt.Sprintf(format, a...)
	if strings.HasPrefix(c, "create ") {
		t.log = nil
	}
	if !strings.HasPrefix(c, "dump ") {
		t.log = append(t.log, c)
	}
	io.WriteString(t.in, c+"\n")
	var out []string
	var err error
	for {
		l, e := t.out.ReadString('\n')
		if e != nil {
			return out, fmt.Errorf("h5tool died on %q", c)
		}
		l = strings.TrimSuffix(l, "\n")
		if l == "." {
			return out, err
		}
		if strings.HasPrefix(l, "!") && err == nil {
			err = fmt.Errorf("%s", l)
		}
		out = append(out, l)
	}
}

// gen sends commands that must succeed; a failure is a fault of the generator.
func (t *H5Tool) gen(format string, a ...any) {
	if _, err := t.do(format, a...); err != nil {
		c := fmt.Sprintf(format, a...)
		if len(c) > 500 {
			c = c[:500]
		}
		panic(fmt.Sprintf("h5tool: %v on %s", err, c))
	}
}

// pct encodes a name for h5tool
func pct(s string) string {
	if s == "" {
		return "%"
	}
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		c := s[i]
		if c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_' || c == '/' {
			b.WriteByte(c)
		} else {
			fmt.Fprintf(&b, "%%%02x", c)
		}
	}
	return b.String()
}

// scalarHex: the little-endian bytes of a Go number
func scalarHex(v any) string {
	var b [8]byte
	n := 0
	switch x := v.(type) {
	case int8:
		b[0], n = byte(x), 1
	case uint8:
		b[0], n = x, 1
	case int16:
		binary.LittleEndian.PutUint16(b[:], uint16(x))
		n = 2
	case uint16:
		binary.LittleEndian.PutUint16(b[:], x)
		n = 2
	case int32:
		binary.LittleEndian.PutUint32(b[:], uint32(x))
		n = 4
	case uint32:
		binary.LittleEndian.PutUint32(b[:], x)
		n = 4
	case int64:
		binary.LittleEndian.PutUint64(b[:], uint64(x))
		n = 8
	case uint64:
		binary.LittleEndian.PutUint64(b[:], x)
		n = 8
	case float32:
		binary.LittleEndian.PutUint32(b[:], math.Float32bits(x))
		n = 4
	case float64:
		binary.LittleEndian.PutUint64(b[:], math.Float64bits(x))
		n = 8
	default:
		panic(fmt.Sprintf("scalarHex %T", v))
	}
	return hex.EncodeToString(b[:n])
}

func scalarH5Type(t reflect.Type) string {
	switch t.Kind() {
	case reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return fmt.Sprintf("i%dsL", t.Size())
	case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return fmt.Sprintf("i%duL", t.Size())
	case reflect.Float32, reflect.Float64:
		return fmt.Sprintf("f%dL", t.Size())
	}
	return "?"
}
