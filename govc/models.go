package main

import (
	"go/token"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type callCtx struct {
	args []Val
	st   *State
	pc   *Term
	pos  token.Pos
	sig  *types.Signature
	name string
	fn   *ssa.Function
}

var models = map[string]func(f *frame, c *callCtx) (Val, *Term){}

const throwerPath = "github.com/batchatco/go-thrower"

func initModels() {
	m := models
	noEffect := func(f *frame, c *callCtx) (Val, *Term) { return f.x.resultFresh(c.sig, c.st), c.pc }
	m[throwerPath+".Throw"] = func(f *frame, c *callCtx) (Val, *Term) {
		f.throws = append(f.throws, exit{pc: c.pc, st: c.st.clone(), err: c.args[0]})
		return nil, tFalse
	}
	m[throwerPath+".ThrowIfError"] = func(f *frame, c *callCtx) (Val, *Term) {
		iv := c.args[0].(IfaceV)
		isNil := f.x.isNilIface(iv)
		if isNil != tTrue {
			f.throws = append(f.throws, exit{pc: mkAnd(c.pc, mkNot(isNil)), st: c.st.clone(), err: iv})
		}
		return nil, mkAnd(c.pc, isNil)
	}
	m[throwerPath+".RecoverError"] = func(f *frame, c *callCtx) (Val, *Term) { return nil, c.pc }
	m[throwerPath+".DisableCatching"] = noEffect
	m[throwerPath+".ReEnableCatching"] = noEffect
	for _, n := range []string{"(*sync.Mutex).Lock", "(*sync.Mutex).Unlock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RLock", "(*sync.RWMutex).RUnlock"} {
		m[n] = func(f *frame, c *callCtx) (Val, *Term) {
			f.x.assumeNote("locks are not modelled: sequential semantics")
			return nil, c.pc
		}
	}
	newErr := func(f *frame, c *callCtx) (Val, *Term) {
		t := fresh("err", sAny)
		f.x.fact(mkNot(raw("=", sBool, t, nilAny)))
		f.x.fact(mkLt(mkInt(0), typOf(t)))
		return IfaceV{T: t}, c.pc
	}
	m["errors.New"] = newErr
	m["fmt.Errorf"] = newErr
	m["fmt.Sprintf"] = func(f *frame, c *callCtx) (Val, *Term) {
		x := f.x
		v, pc := noEffect(f, c)
		r, ok := v.(*Term)
		fm, ok2 := c.args[0].(*Term)
		s, ok3 := c.args[1].(SliceV)
		if !ok || !ok2 || !ok3 || fm != x.strConst("%T") || x.bv {
			return v, pc
		}
		h := x.getHeap(c.st, elemKey(s.Elem, ""), arrSort(sInt, arrSort(sInt, sAny)))
		t := mkSelect(mkSelect(h, s.Arr), s.Off)
		x.assumeNote("fmt.Sprintf(\"%T\", v) names the dynamic type of v")
		for k := types.Bool; k <= types.String; k++ {
			b := types.Typ[k]
			if k == types.Uintptr || k == types.Complex64 || k == types.Complex128 {
				continue
			}
			g := mkImp(mkEq(s.Len, mkInt(1)), mkEq(mkEq(r, x.strConst(b.Name())), mkEq(typOf(t), x.tag(b))))
			x.fact(g)
		}
		return v, pc
	}
	m["fmt.Sprint"] = noEffect
	m["fmt.Sprintln"] = noEffect
	m["fmt.Println"] = noEffect
	m["fmt.Printf"] = noEffect
	m["fmt.Fprintln"] = noEffect
	m["fmt.Fprintf"] = noEffect
	m["slices.Clone"] = func(f *frame, c *callCtx) (Val, *Term) {
		x := f.x
		s, ok := c.args[0].(SliceV)
		if !ok {
			unsup("slices.Clone of %T", c.args[0])
		}
		fr := x.newRef(c.st)
		for li, l := range x.leaves(s.Elem) {
			key := elemKey(s.Elem, l.path)
			as := arrSort(x.idxSort(), l.sort)
			h := x.getHeap(c.st, key, arrSort(sInt, as))
			_, at := x.sliceLike(s, c.st)
			b := fresh("cln", as)
			i := freshBound("i", x.idxSort())
			bi := mkSelect(b, i)
			x.fact(mkForall([]*Term{i}, mkImp(mkAnd(x.leI(x.idxConst(0), i, true), x.ltI(i, s.Len, true)), mkEq(bi, at(li, i))), []*Term{bi}))
			x.forwardCopy(s, at, li, s.Len, func(k *Term) *Term { return mkSelect(b, k) })
			c.st.heaps[key] = mkStore(h, fr, b)
		}
		nc := fresh("newcap", x.idxSort())
		x.fact(x.leI(s.Len, nc, true))
		isNil := mkEq(s.Arr, mkInt(0))
		return SliceV{s.Elem, mkIte(isNil, mkInt(0), fr), x.idxConst(0), s.Len, mkIte(isNil, x.idxConst(0), nc)}, c.pc
	}
	m["maps.Clone"] = func(f *frame, c *callCtx) (Val, *Term) {
		x := f.x
		ref := c.args[0].(*Term)
		mt := c.sig.Params().At(0).Type().Underlying().(*types.Map)
		fr := x.newRef(c.st)
		dk, ks := x.mapDom(c.st, mt)
		cp := func(key, sort string) {
			h := x.getHeap(c.st, key, arrSort(sInt, sort))
			c.st.heaps[key] = mkStore(h, fr, mkSelect(h, ref))
		}
		cp(dk, arrSort(ks, sBool))
		cp("M|"+typeKey(mt)+"|len", x.idxSort())
		for _, lf := range x.leaves(mt.Elem()) {
			cp("M|"+typeKey(mt)+"|val"+lf.path, arrSort(ks, lf.sort))
		}
		return mkIte(mkEq(ref, mkInt(0)), mkInt(0), fr), c.pc
	}
	// sorting: the elements are a permutation of what they were
	m["slices.Sort"] = func(f *frame, c *callCtx) (Val, *Term) {
		x := f.x
		s, ok := c.args[0].(SliceV)
		if !ok || x.bv {
			unsup("slices.Sort of %T", c.args[0])
		}
		perm, inv := fresh("perm", arrSort(sInt, sInt)), fresh("perminv", arrSort(sInt, sInt))
		i := freshBound("i", sInt)
		in := func(t *Term) *Term { return mkAnd(mkLe(mkInt(0), t), mkLt(t, s.Len)) }
		pi, ii := mkSelect(perm, i), mkSelect(inv, i)
		x.fact(mkForall([]*Term{i}, mkImp(in(i), mkAnd(in(pi), mkEq(mkSelect(inv, pi), i))), []*Term{pi}))
		x.fact(mkForall([]*Term{i}, mkImp(in(i), mkAnd(in(ii), mkEq(mkSelect(perm, ii), i))), []*Term{ii}))
		for _, l := range x.leaves(s.Elem) {
			key := elemKey(s.Elem, l.path)
			as := arrSort(sInt, l.sort)
			h := x.getHeap(c.st, key, arrSort(sInt, as))
			old := mkSelect(h, s.Arr)
			a := fresh("srt", as)
			aj := mkSelect(a, i)
			rel := mkSub(i, s.Off)
			from := mkSelect(old, mkAdd(s.Off, mkSelect(perm, rel)))
			x.fact(mkForall([]*Term{i}, mkEq(aj, mkIte(in(rel), from, mkSelect(old, i))), []*Term{aj}))
			// where an element of the old slice has gone
			oi := mkSelect(old, i)
			if oi.op == "select" {
				x.fact(mkForall([]*Term{i}, mkImp(in(rel), mkAnd(in(mkSelect(inv, rel)), mkEq(mkSelect(a, mkAdd(s.Off, mkSelect(inv, rel))), oi))), []*Term{oi}))
			}
			c.st.heaps[key] = mkStore(h, s.Arr, a)
		}
		return nil, c.pc
	}
	m["encoding/binary.Write"] = modelBinaryWrite
	m["encoding/binary.Read"] = modelBinaryRead
	m["math.Float32bits"] = func(f *frame, c *callCtx) (Val, *Term) { return f.x.fbits("f32bits", c.args[0].(*Term)), c.pc }
	m["math.Float64bits"] = func(f *frame, c *callCtx) (Val, *Term) { return f.x.fbits("f64bits", c.args[0].(*Term)), c.pc }
	m["math.Float32frombits"] = func(f *frame, c *callCtx) (Val, *Term) { return f.x.ofBits(32, c.args[0].(*Term)), c.pc }
	m["math.Float64frombits"] = func(f *frame, c *callCtx) (Val, *Term) { return f.x.ofBits(64, c.args[0].(*Term)), c.pc }
}

func (x *Ctx) fbits(name string, t *Term) *Term {
	s := sInt
	if x.bv {
		s = bvSort(map[string]int{"f32bits": 32, "f64bits": 64}[name])
	}
	r := mkApp(name, s, t)
	if !x.bv {
		x.floatFacts(name, t, r)
	}
	return r
}
func (x *Ctx) ofBits(w int, b *Term) *Term {
	nm, fs, bn := "f32of", "F32", "f32bits"
	if w == 64 {
		nm, fs, bn = "f64of", "F64", "f64bits"
	}
	r := mkApp(nm, fs, b)
	if !r.hasB {
		x.fact(mkEq(mkApp(bn, b.sort, r), b))
		x.assumeNote("float bit patterns are preserved by math.Float*bits (NaN payloads included)")
	}
	return r
}

// ---- binary encoding

// orderOf: 1 little, 2 big, 0 unknown
func (f *frame) orderOf(v Val) int {
	iv, ok := v.(IfaceV)
	if !ok || iv.Known == nil {
		return 0
	}
	s := iv.Known.String()
	switch {
	case strings.HasSuffix(s, "littleEndian"):
		return 1
	case strings.HasSuffix(s, "bigEndian"):
		return 2
	case strings.HasSuffix(s, "nativeEndian"):
		f.x.assumeNote("the host is little-endian")
		return 1
	}
	return 0
}

// fixedWidth: byte width of a fixed-size scalar type (0 if not one)
func fixedWidth(t types.Type) int {
	if b, ok := t.Underlying().(*types.Basic); ok {
		switch b.Kind() {
		case types.Int8, types.Uint8, types.Bool:
			return 1
		case types.Int16, types.Uint16:
			return 2
		case types.Int32, types.Uint32, types.Float32:
			return 4
		case types.Int64, types.Uint64, types.Float64:
			return 8
		}
	}
	return 0
}

// unsignedOf: the value as an unsigned machine word of w bytes (mathematical)
func (x *Ctx) unsignedOf(v *Term, t types.Type, w int) *Term {
	switch v.sort {
	case "F32":
		return x.fbits("f32bits", v)
	case "F64":
		return x.fbits("f64bits", v)
	case sBool:
		return mkIte(v, mkInt(1), mkInt(0))
	}
	if _, s, ok := intInfo(t); ok && s {
		return mkIte(mkLt(v, mkInt(0)), mkAdd(v, mkBig(pow2(8*w))), v)
	}
	return v
}

// fromUnsigned: the Go value of type t with machine word u
func (x *Ctx) fromUnsigned(u *Term, t types.Type, w int) *Term {
	switch x.scalarSort(t) {
	case "F32":
		return x.ofBits(32, u)
	case "F64":
		return x.ofBits(64, u)
	case sBool:
		return mkNot(mkEq(u, mkInt(0)))
	}
	if _, s, ok := intInfo(t); ok && s {
		return mkIte(mkLe(mkBig(pow2(8*w-1)), u), mkSub(u, mkBig(pow2(8*w))), u)
	}
	return u
}

// encodeScalar: w bytes of unsigned u in memory order
func (x *Ctx) encodeScalar(u *Term, w int, little bool) []*Term {
	out := make([]*Term, w)
	if w == 1 {
		out[0] = u
		return out
	}
	sum := mkInt(0)
	for k := 0; k < w; k++ {
		p := w - 1 - k // power of byte k
		if little {
			p = k
		}
		if isConst(u) {
			b := new(big.Int).Rsh(u.num, uint(8*p))
			b.And(b, big.NewInt(255))
			out[k] = mkBig(b)
			continue
		}
		out[k] = fresh("b", sInt)
		x.fact(mkAnd(mkLe(mkInt(0), out[k]), mkLe(out[k], mkInt(255))))
		sum = mkAdd(sum, mkMul(mkBig(pow2(8*p)), out[k]))
	}
	if !isConst(u) {
		x.fact(mkEq(sum, u))
	}
	return out
}

// newBytes: a fresh byte slice with the given contents
func (x *Ctx) newBytes(st *State, n *Term, content *Term) SliceV {
	r := x.newRef(st)
	e := types.Typ[types.Uint8]
	x.setElemArr(st, e, r, content)
	return SliceV{Arr: r, Off: x.idxConst(0), Len: n, Cap: n, Elem: e}
}

// encode: what binary.Write puts on the wire for value v of type t; ok=false if unsupported
func (f *frame) encode(v Val, t types.Type, little bool, st *State, pc *Term) (SliceV, bool) {
	x := f.x
	as := arrSort(x.idxSort(), x.byteSort())
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		a, ok := v.(AddrV)
		if !ok {
			return SliceV{}, false
		}
		return f.encode(x.load(st, a), u.Elem(), little, st, pc)
	case *types.Basic:
		w := fixedWidth(t)
		tm, ok := v.(*Term)
		if w == 0 || !ok {
			return SliceV{}, false
		}
		arr := mkConstArr(as, mkInt(0))
		for k, b := range x.encodeScalar(x.unsignedOf(tm, t, w), w, little) {
			arr = mkStore(arr, mkInt(int64(k)), b)
		}
		return x.newBytes(st, mkInt(int64(w)), arr), true
	case *types.Slice:
		w := fixedWidth(u.Elem())
		s, ok := v.(SliceV)
		if w == 0 || !ok {
			return SliceV{}, false
		}
		src := x.elemArr(st, u.Elem(), s.Arr)
		content := fresh("enc", as)
		i := freshBound("i", sInt)
		el := mkSelect(src, mkAdd(s.Off, i))
		g := mkAnd(mkLe(mkInt(0), i), mkLt(i, s.Len))
		if w == 1 {
			x.fact(x.mkAll(i, g, mkEq(mkSelect(content, i), x.unsignedOf(el, u.Elem(), 1))))
		} else {
			var lo []*Term
			for k := 0; k < w; k++ {
				b := mkSelect(content, mkAdd(mkMul(mkInt(int64(w)), i), mkInt(int64(k))))
				lo = append(lo, mkLe(mkInt(0), b), mkLe(b, mkInt(255)))
			}
			be := beTerm(x, content, mkMul(mkInt(int64(w)), i), w, little)
			body := mkAnd(append(lo, mkEq(be, x.unsignedOf(el, u.Elem(), w)))...)
			j := freshBound("j", sInt)
			b2 := subst(mkImp(g, body), map[*Term]*Term{i: mkSub(j, s.Off)}, map[*Term]*Term{})
			x.fact(mkForall([]*Term{j}, b2, []*Term{mkSelect(src, j)}))
			x.fact(mkForall([]*Term{i}, mkImp(g, body), []*Term{mkSelect(content, mkMul(mkInt(int64(w)), i))}))
		}
		return x.newBytes(st, mkMul(mkInt(int64(w)), s.Len), content), true
	case *types.Array:
		w := fixedWidth(u.Elem())
		a, ok := v.(ArrayV)
		if w != 1 || !ok {
			return SliceV{}, false
		}
		return x.newBytes(st, mkInt(u.Len()), a.Leaves[0]), true
	}
	return SliceV{}, false
}

func modelBinaryWrite(f *frame, c *callCtx) (Val, *Term) {
	x := f.x
	if x.bv {
		unsup("binary.Write in bit-vector mode")
	}
	w := c.args[0].(IfaceV)
	d := c.args[2].(IfaceV)
	ord := f.orderOf(c.args[1])
	st := c.st
	var buf SliceV
	ok := false
	if d.Known != nil {
		one := false
		if b, isB := d.Known.Underlying().(*types.Basic); isB {
			one = b.Kind() == types.Int8 || b.Kind() == types.Uint8
		}
		if sl, isS := d.Known.Underlying().(*types.Slice); isS {
			one = fixedWidth(sl.Elem()) == 1
		}
		if ord != 0 || one {
			buf, ok = f.encode(d.V, d.Known, ord == 1, st, c.pc)
		}
	}
	if !ok {
		x.assumeNote("binary.Write of a value of unknown type: appends unspecified bytes or fails")
		n := fresh("n", sInt)
		x.fact(mkLe(mkInt(0), n))
		buf = x.newBytes(st, n, fresh("enc", arrSort(sInt, sInt)))
	}
	res, pc := f.invokeMethod(w, "Write", []Val{buf}, st, c.pc, c.pos)
	if pc == tFalse {
		return nil, pc
	}
	tv := res.(TupleV)
	if !ok {
		// may also fail before writing
		e := fresh("werr", sAny)
		x.fact(mkImp(raw("=", sBool, e, nilAny), mkEq(mkInt(1), mkInt(1))))
		return IfaceV{T: e}, pc
	}
	return tv[1], pc
}

// invokeMethod calls a method on an interface value from a model.
func (f *frame) invokeMethod(recv IfaceV, name string, args []Val, st *State, pc *Term, pos token.Pos) (Val, *Term) {
	x := f.x
	if recv.Known == nil {
		if b, ok := x.boxOf[recv.T]; ok {
			recv = b
		}
	}
	if recv.Known != nil {
		obj, _, _ := types.LookupFieldOrMethod(recv.Known, true, nil, name)
		fo, ok := obj.(*types.Func)
		if !ok {
			unsup("no method %s on %s", name, recv.Known)
		}
		m := x.w.prog.LookupMethod(recv.Known, fo.Pkg(), name)
		return f.callFn(m, nil, append([]Val{recv.V}, args...), st, pc, pos)
	}
	for _, k := range []string{"(io.Writer)." + name, "(io.Reader)." + name, "(io.ByteWriter)." + name} {
		if con := x.w.specs.Contracts[k]; con != nil {
			sig := x.w.methodSig(k)
			return f.applyContract(con, nil, sig, append([]Val{recv}, args...), st, pc, pos, x.w.ifaceType(k))
		}
	}
	unsup("no contract for method %s of an unknown implementation", name)
	return nil, nil
}

func (w *World) ifaceType(key string) types.Type {
	s := strings.TrimPrefix(key, "(")
	s = s[:strings.Index(s, ")")]
	i := strings.LastIndex(s, ".")
	p := w.pkgs[s[:i]]
	return p.Pkg.Scope().Lookup(s[i+1:]).Type()
}
func (w *World) methodSig(key string) *types.Signature {
	t := w.ifaceType(key)
	name := key[strings.LastIndex(key, ".")+1:]
	obj, _, _ := types.LookupFieldOrMethod(t, true, nil, name)
	return obj.Type().(*types.Signature)
}

// modelBinaryRead: reads exactly the size of the target from the stream or fails.
func modelBinaryRead(f *frame, c *callCtx) (Val, *Term) {
	x := f.x
	if x.bv {
		unsup("binary.Read in bit-vector mode")
	}
	r := c.args[0].(IfaceV)
	d := c.args[2].(IfaceV)
	ord := f.orderOf(c.args[1])
	st := c.st
	ref := x.ifaceRef(r)
	posH := x.getHeap(st, "G|inpos", arrSort(sInt, sInt))
	p0 := mkSelect(posH, ref)
	errT := fresh("rderr", sAny)
	okc := raw("=", sBool, errT, nilAny)
	x.fact(mkImp(mkNot(okc), mkLt(mkInt(0), typOf(errT))))
	x.assumeNote("input streams deliver the bytes of a fixed ghost sequence in order (io.Reader contract)")
	dat := x.inDat(ref)
	n := (*Term)(nil)
	if d.Known == nil {
		if b, ok := x.boxOf[d.T]; ok {
			d = b
		}
	}
	byteAt := func(p *Term) *Term {
		b := mkSelect(dat, p)
		if !b.hasB {
			x.fact(mkAnd(mkLe(mkInt(0), b), mkLe(b, mkInt(255))))
		}
		return b
	}
	_ = byteAt
	switch {
	case d.Known == nil:
		x.assumeNote("binary.Read into a value of unknown type: target unspecified")
		n = fresh("n", sInt)
		x.fact(mkLe(mkInt(0), n))
	default:
		switch u := d.Known.Underlying().(type) {
		case *types.Pointer:
			a, isA := d.V.(AddrV)
			w := fixedWidth(u.Elem())
			if isA && w > 0 && (ord != 0 || w == 1) {
				n = mkInt(int64(w))
				v := x.fromUnsigned(beTerm(x, dat, p0, w, ord == 1), u.Elem(), w)
				old := x.load(st, a)
				x.store(st, a, x.mergeVal(okc, v, old, u.Elem()))
				break
			}
			if sz, ok := structSize(u.Elem()); ok && isA {
				n = mkInt(int64(sz))
				x.store(st, a, x.freshVal("rd", u.Elem(), st))
				break
			}
			n = fresh("n", sInt)
			x.fact(mkLe(mkInt(0), n))
			f.x.havocArg(d.V, st)
		case *types.Slice:
			s, isS := d.V.(SliceV)
			w := fixedWidth(u.Elem())
			if isS && w > 0 && (ord != 0 || w == 1) {
				n = mkMul(mkInt(int64(w)), s.Len)
				old := x.elemArr(st, u.Elem(), s.Arr)
				es := x.scalarSort(u.Elem())
				nw := fresh("rd", arrSort(sInt, es))
				j := freshBound("j", sInt)
				k := mkSub(j, s.Off)
				in := mkAnd(mkLe(mkInt(0), k), mkLt(k, s.Len))
				be := beTerm(x, dat, mkAdd(p0, mkMul(mkInt(int64(w)), k)), w, ord == 1)
				el := mkSelect(nw, j)
				x.fact(mkForall([]*Term{j}, mkAnd(
					mkImp(mkAnd(okc, in), mkEq(x.unsignedOf(el, u.Elem(), w), be)),
					mkImp(mkNot(in), mkEq(el, mkSelect(old, j)))), []*Term{el}))
				if es == "F32" || es == "F64" {
					x.fact(mkForall([]*Term{j}, mkImp(mkAnd(okc, in), mkEq(el, x.fromUnsigned(be, u.Elem(), w))), []*Term{el}))
				}
				x.setElemArr(st, u.Elem(), s.Arr, nw)
				break
			}
			n = fresh("n", sInt)
			x.fact(mkLe(mkInt(0), n))
			x.havocArg(d.V, st)
		default:
			n = fresh("n", sInt)
			x.havocArg(d.V, st)
		}
	}
	x.fact(mkImp(okc, mkLe(mkAdd(p0, n), x.inLen(ref))))
	p1 := fresh("pos", sInt)
	x.fact(mkImp(okc, mkEq(p1, mkAdd(p0, n))))
	x.fact(mkImp(mkNot(okc), mkAnd(mkLe(p0, p1), mkLe(p1, mkAdd(p0, n)))))
	st.heaps["G|inpos"] = mkStore(x.getHeap(st, "G|inpos", arrSort(sInt, sInt)), ref, p1)
	return IfaceV{T: errT}, c.pc
}

func structSize(t types.Type) (int, bool) {
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return 0, false
	}
	n := 0
	for i := 0; i < s.NumFields(); i++ {
		w := fixedWidth(s.Field(i).Type())
		if w == 0 {
			return 0, false
		}
		n += w
	}
	return n, true
}
