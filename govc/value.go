package main

import (
	"fmt"
	"go/types"
	"math/big"
	"regexp"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Val interface{}

type StructV struct {
	T types.Type
	F []Val
}
type SliceV struct {
	Elem               types.Type
	Arr, Off, Len, Cap *Term
}
type IfaceV struct {
	Known types.Type // dynamic type when statically known
	V     Val
	T     *Term // Any term when not known
}

// AddrV is a pointer: to a whole object (Path empty, !IsElem), to part of one, or to a slice element.
type AddrV struct {
	Ref    *Term
	Root   types.Type // type of the heap object (or of the element when IsElem)
	IsElem bool
	Idx    *Term
	Path   []pstep
	T      types.Type // type of the pointed-to thing
}
type pstep struct {
	field int // struct field
	name  string
	idx   *Term      // array index when non-nil
	t     types.Type // type after the step
}
type FuncV struct {
	Fn   *ssa.Function
	Bind []Val
	T    *Term // unknown function
}
type TupleV []Val

// ArrayV is a value of array type: one SMT array per leaf of the element type.
type ArrayV struct {
	T      *types.Array
	Leaves []*Term
}
type Poison struct{ why string }

type unsupported struct{ msg string }

func unsup(f string, a ...interface{}) {
	panic(unsupported{fmt.Sprintf(f, a...)})
}

// mode-dependent helpers ------------------------------------------------
type modeT struct{ bv bool }

func (x *Ctx) idxSort() string {
	if x.bv {
		return bvSort(64)
	}
	return sInt
}
func (x *Ctx) idxConst(n int64) *Term {
	if x.bv {
		return mkBV(big.NewInt(n), 64)
	}
	return mkInt(n)
}

func intInfo(t types.Type) (width int, signed bool, ok bool) {
	b, isb := t.Underlying().(*types.Basic)
	if !isb {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt, types.UntypedRune:
		return 64, true, true
	case types.Int8:
		return 8, true, true
	case types.Int16:
		return 16, true, true
	case types.Int32:
		return 32, true, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	case types.Uint8:
		return 8, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint32:
		return 32, false, true
	}
	return 0, false, false
}

func intRange(t types.Type) (lo, hi *big.Int, ok bool) {
	w, s, ok := intInfo(t)
	if !ok {
		return nil, nil, false
	}
	one := big.NewInt(1)
	if s {
		hi = new(big.Int).Lsh(one, uint(w-1))
		lo = new(big.Int).Neg(hi)
		hi = new(big.Int).Sub(hi, one)
	} else {
		lo = new(big.Int)
		hi = new(big.Int).Sub(new(big.Int).Lsh(one, uint(w)), one)
	}
	return lo, hi, true
}

func (x *Ctx) scalarSort(t types.Type) string {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if w, _, ok := intInfo(t); ok {
			if x.bv {
				return bvSort(w)
			}
			return sInt
		}
		switch {
		case u.Info()&types.IsBoolean != 0:
			return sBool
		case u.Info()&types.IsString != 0:
			return sStr
		case u.Kind() == types.Float32:
			return "F32"
		case u.Kind() == types.Float64 || u.Kind() == types.UntypedFloat:
			return "F64"
		case u.Kind() == types.UnsafePointer || u.Kind() == types.UntypedNil:
			return sInt
		}
	case *types.Pointer, *types.Map, *types.Chan:
		return sInt
	case *types.Signature:
		return "Fun"
	case *types.Interface:
		return sAny
	}
	return ""
}

type leaf struct {
	path string
	sort string
	t    types.Type // Go type of the leaf (nil for slice components)
	kind string     // "", arr, off, len, cap
}

func (x *Ctx) leaves(t types.Type) []leaf {
	if s := x.scalarSort(t); s != "" {
		return []leaf{{"", s, t, ""}}
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		i := x.idxSort()
		return []leaf{{".arr", sInt, nil, "arr"}, {".off", i, nil, "off"}, {".len", i, nil, "len"}, {".cap", i, nil, "cap"}}
	case *types.Struct:
		var out []leaf
		for i := 0; i < u.NumFields(); i++ {
			for _, l := range x.leaves(u.Field(i).Type()) {
				l.path = "." + u.Field(i).Name() + l.path
				out = append(out, l)
			}
		}
		return out
	case *types.Array:
		var out []leaf
		for _, l := range x.leaves(u.Elem()) {
			l.path = "[]" + l.path
			l.sort = arrSort(x.idxSort(), l.sort)
			l.kind = "array"
			out = append(out, l)
		}
		return out
	case *types.Tuple:
		if u.Len() == 0 {
			return nil
		}
	}
	unsup("leaves of type %s", t)
	return nil
}

// fromLeaves builds a value of type t from leaf terms in order.
func (x *Ctx) fromLeaves(t types.Type, ts []*Term) Val {
	v, rest := x.fromL(t, ts)
	if len(rest) != 0 {
		panic("fromLeaves: leftover")
	}
	return v
}
func (x *Ctx) fromL(t types.Type, ts []*Term) (Val, []*Term) {
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		return AddrV{Ref: ts[0], Root: u.Elem(), T: u.Elem()}, ts[1:]
	case *types.Interface:
		return x.anyVal(ts[0]), ts[1:]
	case *types.Signature:
		return FuncV{T: ts[0]}, ts[1:]
	case *types.Slice:
		return SliceV{u.Elem(), ts[0], ts[1], ts[2], ts[3]}, ts[4:]
	case *types.Struct:
		s := StructV{T: t}
		for i := 0; i < u.NumFields(); i++ {
			var f Val
			f, ts = x.fromL(u.Field(i).Type(), ts)
			s.F = append(s.F, f)
		}
		return s, ts
	case *types.Array:
		n := len(x.leaves(u.Elem()))
		return ArrayV{u, append([]*Term{}, ts[:n]...)}, ts[n:]
	}
	return ts[0], ts[1:]
}

// toLeaves flattens a value; it panics (unsupported) for interior pointers.
func (x *Ctx) toLeaves(v Val, t types.Type) []*Term {
	switch a := v.(type) {
	case *Term:
		return []*Term{a}
	case AddrV:
		if a.IsElem || len(a.Path) > 0 {
			// an interior pointer stored as a value: identity only
			return []*Term{x.interiorRef(a)}
		}
		return []*Term{a.Ref}
	case IfaceV:
		return []*Term{x.box(a)}
	case FuncV:
		if a.T != nil {
			return []*Term{a.T}
		}
		return []*Term{x.funcTerm(a)}
	case SliceV:
		return []*Term{a.Arr, a.Off, a.Len, a.Cap}
	case StructV:
		var out []*Term
		u := a.T.Underlying().(*types.Struct)
		for i, f := range a.F {
			out = append(out, x.toLeaves(f, u.Field(i).Type())...)
		}
		return out
	case ArrayV:
		return a.Leaves
	case Poison:
		unsup("use of %s", a.why)
	case TupleV:
		unsup("tuple as value")
	}
	unsup("toLeaves %T", v)
	return nil
}

func (x *Ctx) interiorRef(a AddrV) *Term {
	// an injective-enough opaque identity; loads through it are not supported
	args := []*Term{a.Ref}
	n := "iptr_" + typeKey(a.Root)
	if a.IsElem {
		n += "_e"
		args = append(args, a.Idx)
	}
	for _, p := range a.Path {
		if p.idx != nil {
			args = append(args, p.idx)
			n += "_i"
		} else {
			n += "_" + p.name
		}
	}
	t := mkApp(n, sInt, args...)
	x.fact(mkLt(mkInt(0), t))
	x.interior[t] = a
	return t
}

func (x *Ctx) funcTerm(f FuncV) *Term {
	var args []*Term
	for i, b := range f.Bind {
		args = append(args, x.toLeaves(b, f.Fn.FreeVars[i].Type())...)
	}
	t := mkApp("fn_"+sanitize(f.Fn.String()), "Fun", args...)
	x.funcOf[t] = f
	return t
}

func typeKey(t types.Type) string {
	s := types.TypeString(types.Unalias(t), func(p *types.Package) string {
		return strings.TrimPrefix(p.Path(), modPath+"/")
	})
	// byte and uint8, rune and int32 are the same types
	if strings.Contains(s, "byte") {
		s = reByte.ReplaceAllString(s, "uint8")
	}
	if strings.Contains(s, "rune") {
		s = reRune.ReplaceAllString(s, "int32")
	}
	return s
}

var reByte, reRune = regexp.MustCompile(`\bbyte\b`), regexp.MustCompile(`\brune\b`)

// ---- interfaces

var nilAny = mkVar("nilAny", sAny)

func (x *Ctx) tag(t types.Type) *Term {
	k := typeKey(t)
	n, ok := x.tags[k]
	if !ok {
		n = len(x.tags) + 1
		x.tags[k] = n
	}
	return mkInt(int64(n))
}

func typOf(a *Term) *Term {
	if a == nilAny {
		return mkInt(0)
	}
	return mkApp("typ", sInt, a)
}

// anyVal wraps an Any term, recovering a known box.
func (x *Ctx) anyVal(t *Term) IfaceV {
	if v, ok := x.boxOf[t]; ok {
		return v
	}
	return IfaceV{T: t}
}

func (x *Ctx) box(v IfaceV) *Term {
	if v.Known == nil {
		return v.T
	}
	ls := x.leaves(v.Known)
	ts := x.toLeaves(v.V, v.Known)
	if p, ok := v.Known.Underlying().(*types.Pointer); ok && len(ts) == 1 {
		_ = p
	}
	name := "box_" + typeKey(v.Known)
	b := mkApp(name, sAny, ts...)
	x.boxOf[b] = v
	if !b.hasB {
		x.fact(mkEq(mkApp("typ", sInt, b), x.tag(v.Known)))
		for i, l := range ls {
			x.fact(mkEq(mkApp(x.unboxName(v.Known, l), l.sort, b), ts[i]))
		}
	}
	return b
}
func (x *Ctx) unboxName(t types.Type, l leaf) string {
	if l.sort == sInt && l.kind == "" {
		switch t.Underlying().(type) {
		case *types.Pointer, *types.Map, *types.Chan:
			return "unbox_ref"
		}
	}
	return "unbox_" + typeKey(t) + l.path
}

// unbox reads a concrete type out of an interface value (caller checks the tag).
func (x *Ctx) unbox(v IfaceV, t types.Type, st *State) Val {
	if v.Known != nil && types.Identical(types.Unalias(v.Known), types.Unalias(t)) {
		return v.V
	}
	a := x.box(v)
	var ts []*Term
	for _, l := range x.leaves(t) {
		u := mkApp(x.unboxName(t, l), l.sort, a)
		ts = append(ts, u)
	}
	r := x.fromLeaves(t, ts)
	x.typeFacts(r, t, st)
	return r
}

// ifaceRef is the identity of the object behind an interface holding a pointer.
func (x *Ctx) ifaceRef(v Val) *Term {
	switch a := v.(type) {
	case IfaceV:
		if a.Known != nil {
			switch k := a.V.(type) {
			case AddrV:
				return x.toLeaves(k, a.Known)[0]
			case *Term:
				if k.sort == sInt {
					return k
				}
			case IfaceV:
				return x.ifaceRef(k)
			case StructV:
				// value receivers: identity of the box
				return mkApp("unbox_ref", sInt, x.box(a))
			}
			return mkApp("unbox_ref", sInt, x.box(a))
		}
		return mkApp("unbox_ref", sInt, a.T)
	case AddrV:
		return x.toLeaves(a, nil)[0]
	case *Term:
		if a.sort == sAny {
			if b, ok := x.boxOf[a]; ok {
				return x.ifaceRef(b)
			}
			return mkApp("unbox_ref", sInt, a)
		}
		return a
	}
	unsup("ifaceRef %T", v)
	return nil
}

// ---- zero values
func (x *Ctx) zero(t types.Type) Val {
	var ts []*Term
	for _, l := range x.leaves(t) {
		ts = append(ts, x.zeroSort(l.sort))
	}
	return x.fromLeaves(t, ts)
}

var emptyStr = mkVar("str.empty", sStr)

func (x *Ctx) zeroSort(s string) *Term {
	switch {
	case s == sInt:
		return mkInt(0)
	case s == sBool:
		return tFalse
	case s == sStr:
		return x.strConst("")
	case s == sAny:
		return nilAny
	case isBV(s):
		return mkBV(new(big.Int), bvWidth(s))
	case strings.HasPrefix(s, "(Array "):
		return mkConstArr(s, x.zeroSort(arrElemSort(s)))
	}
	return mkVar("zero_"+s, s)
}

// ---- strings
func (x *Ctx) strConst(s string) *Term {
	if t, ok := x.strs[s]; ok {
		return t
	}
	name := fmt.Sprintf("str%d", len(x.strs))
	if s == "" {
		name = "str.empty"
	}
	t := mkVar(name, sStr)
	x.strs[s] = t
	x.strDef = append(x.strDef, mkEq(mkApp("slen", x.idxSort(), t), x.idxConst(int64(len(s)))))
	if len(s) <= 80 {
		for i := 0; i < len(s); i++ {
			x.strDef = append(x.strDef, mkEq(x.sat(t, x.idxConst(int64(i))), x.byteConst(int64(s[i]))))
		}
	}
	// distinct from the other literals (also implied by the contents)
	for o, ot := range x.strs {
		if o != s {
			x.strDef = append(x.strDef, mkNot(raw("=", sBool, t, ot)))
		}
	}
	return t
}
func (x *Ctx) byteSort() string {
	if x.bv {
		return bvSort(8)
	}
	return sInt
}
func (x *Ctx) byteConst(n int64) *Term {
	if x.bv {
		return mkBV(big.NewInt(n), 8)
	}
	return mkInt(n)
}
func (x *Ctx) slen(s *Term) *Term {
	for lit, t := range x.strs {
		if t == s {
			return x.idxConst(int64(len(lit)))
		}
	}
	return x.slenRaw(s)
}
func (x *Ctx) slenRaw(s *Term) *Term {
	t := mkApp("slen", x.idxSort(), s)
	if !t.hasB {
		x.fact(x.leI(x.idxConst(0), t, true))
		if x.bv {
			x.fact(x.leI(t, mkBV(big.NewInt(1<<40), 64), true))
		} else {
			x.fact(mkLe(t, mkBig(new(big.Int).Lsh(big.NewInt(1), 62))))
		}
		// the empty string is the only one of length 0
		x.fact(mkImp(mkEq(t, x.idxConst(0)), raw("=", sBool, s, x.strConst(""))))
	}
	return t
}
func (x *Ctx) sat(s, i *Term) *Term {
	t := mkApp("sat", x.byteSort(), s, i)
	if !t.hasB && !x.bv {
		x.fact(mkAnd(mkLe(mkInt(0), t), mkLe(t, mkInt(255))))
	}
	return t
}

func (x *Ctx) leI(a, b *Term, signed bool) *Term {
	if isBV(a.sort) {
		if isConst(a) && isConst(b) && !signed {
			return mkBool(a.num.Cmp(b.num) <= 0)
		}
		if a == b {
			return tTrue
		}
		if signed {
			return raw("bvsle", sBool, a, b)
		}
		return raw("bvule", sBool, a, b)
	}
	return mkLe(a, b)
}
func (x *Ctx) ltI(a, b *Term, signed bool) *Term {
	if isBV(a.sort) {
		if a == b {
			return tFalse
		}
		if signed {
			return raw("bvslt", sBool, a, b)
		}
		return raw("bvult", sBool, a, b)
	}
	return mkLt(a, b)
}

// strEq is string equality with an extensionality instance.
func (x *Ctx) strEq(a, b *Term) *Term {
	e := mkEq(a, b)
	if e == tTrue || e == tFalse {
		return e
	}
	for l1, t := range x.strs {
		if t == a {
			for l2, u := range x.strs {
				if u == b {
					return mkBool(l1 == l2)
				}
			}
		}
	}
	if !e.hasB {
		d := mkApp("sdiff", x.idxSort(), a, b)
		x.fact(mkOr(e, mkNot(mkEq(x.slen(a), x.slen(b))),
			mkAnd(x.leI(x.idxConst(0), d, true), x.ltI(d, x.slen(a), true), mkNot(mkEq(x.sat(a, d), x.sat(b, d))))))
	}
	return e
}
