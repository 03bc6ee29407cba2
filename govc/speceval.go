package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type TV struct {
	V Val
	T types.Type
}

type nilMark struct{}
type litInt struct{ n *big.Int }

type specEnv struct {
	x         *Ctx
	st        *State
	old       *State
	vars      map[string]TV
	locals    func(name string, st *State) (TV, bool)
	initState *State
	initVals  map[*ssa.Phi]Val
	prevState *State
	prevVals  map[*ssa.Phi]Val
	initEnv   *specEnv
	pkg       *types.Package
	con       *Contract
	assuming  bool
	depth     int
	f         *frame
	li        *loopInfo
}

func (e *specEnv) with(name string, v TV) *specEnv {
	n := *e
	n.vars = make(map[string]TV, len(e.vars)+1)
	for k, w := range e.vars {
		n.vars[k] = w
	}
	n.vars[name] = v
	return &n
}

type specErr struct{ msg string }

func serr(f string, a ...interface{}) { panic(specErr{fmt.Sprintf(f, a...)}) }

func (x *Ctx) evalClause(c Clause, env *specEnv) (r *Term) {
	defer func() {
		if e := recover(); e != nil {
			switch v := e.(type) {
			case specErr:
				panic(unsupported{fmt.Sprintf("%s: %q: %s", c.Line, c.Text, v.msg)})
			case unsupported:
				panic(unsupported{fmt.Sprintf("%s: %q: %s", c.Line, c.Text, v.msg)})
			}
			panic(e)
		}
	}()
	t := env.term(env.eval(c.E))
	if t.sort != sBool {
		serr("not a boolean")
	}
	return t
}
func (x *Ctx) evalTerm(c Clause, env *specEnv) *Term {
	return env.term(env.eval(c.E))
}

func (e *specEnv) term(v TV) *Term {
	switch t := v.V.(type) {
	case *Term:
		return t
	case litInt:
		return mkBig(t.n)
	case nilMark:
		return mkInt(0)
	case Poison:
		serr("use of %s", t.why)
	}
	ts := e.x.toLeaves(v.V, v.T)
	if len(ts) != 1 {
		serr("composite value where a scalar is needed")
	}
	return ts[0]
}

func (e *specEnv) termLike(v TV, sort string) *Term {
	if l, ok := v.V.(litInt); ok {
		if isBV(sort) {
			return mkBV(l.n, bvWidth(sort))
		}
		return mkBig(l.n)
	}
	if _, ok := v.V.(nilMark); ok {
		if sort == sAny {
			return nilAny
		}
		return mkInt(0)
	}
	return e.term(v)
}

func (e *specEnv) bool(x ast.Expr) *Term {
	t := e.term(e.eval(x))
	if t.sort != sBool {
		serr("boolean expected")
	}
	return t
}

func tv(t *Term) TV { return TV{t, nil} }

func (e *specEnv) eval(n ast.Expr) TV {
	x := e.x
	switch v := n.(type) {
	case *ast.ParenExpr:
		return e.eval(v.X)
	case *ast.BasicLit:
		switch v.Kind {
		case token.INT:
			b := new(big.Int)
			b.SetString(v.Value, 0)
			return TV{litInt{b}, nil}
		case token.CHAR:
			r, _, _, _ := strconv.UnquoteChar(v.Value[1:len(v.Value)-1], '\'')
			return TV{litInt{big.NewInt(int64(r))}, nil}
		case token.STRING:
			s, _ := strconv.Unquote(v.Value)
			return TV{x.strConst(s), types.Typ[types.String]}
		}
	case *ast.Ident:
		return e.ident(v.Name)
	case *ast.SelectorExpr:
		return e.selector(v)
	case *ast.IndexExpr:
		b := e.eval(v.X)
		i := e.eval(v.Index)
		return e.index(b, i)
	case *ast.SliceExpr:
		b := e.eval(v.X)
		z := TV{litInt{new(big.Int)}, nil}
		lo := z
		if v.Low != nil {
			lo = e.eval(v.Low)
		}
		switch s := b.V.(type) {
		case SliceV:
			l := e.termLike(lo, x.idxSort())
			h := s.Len
			if v.High != nil {
				h = e.termLike(e.eval(v.High), x.idxSort())
			}
			return TV{SliceV{s.Elem, s.Arr, mkAdd(s.Off, l), mkSub(h, l), mkSub(s.Cap, l)}, b.T}
		case *Term:
			if s.sort == sStr {
				l := e.termLike(lo, x.idxSort())
				h := x.slen(s)
				if v.High != nil {
					h = e.termLike(e.eval(v.High), x.idxSort())
				}
				return TV{x.substr(s, l, h), b.T}
			}
		}
		serr("slice expression on %T", b.V)
	case *ast.StarExpr:
		b := e.eval(v.X)
		a, ok := b.V.(AddrV)
		if !ok {
			serr("* of %T", b.V)
		}
		return TV{x.load(e.st, a), a.T}
	case *ast.UnaryExpr:
		switch v.Op {
		case token.NOT:
			return tv(mkNot(e.bool(v.X)))
		case token.SUB:
			b := e.eval(v.X)
			if l, ok := b.V.(litInt); ok {
				return TV{litInt{new(big.Int).Neg(l.n)}, nil}
			}
			return TV{mkNeg(e.term(b)), b.T}
		case token.XOR:
			b := e.eval(v.X)
			t := e.term(b)
			if isBV(t.sort) {
				return TV{raw("bvnot", t.sort, t), b.T}
			}
			return TV{mkSub(mkInt(-1), t), b.T}
		case token.AND:
			return e.eval(v.X)
		}
	case *ast.BinaryExpr:
		return e.binary(v)
	case *ast.CallExpr:
		return e.call(v)
	}
	serr("unsupported expression %T", n)
	return TV{}
}

func (e *specEnv) ident(name string) TV {
	x := e.x
	switch name {
	case "true":
		return tv(tTrue)
	case "false":
		return tv(tFalse)
	case "nil":
		return TV{nilMark{}, nil}
	}
	if v, ok := e.vars[name]; ok {
		return v
	}
	if e.locals != nil {
		if v, ok := e.locals(name, e.st); ok {
			return v
		}
	}
	if e.con != nil {
		for _, l := range e.con.Lets {
			if l.name == name {
				// lets are evaluated over the pre-state
				n := *e
				if e.old != nil {
					n.st = e.old
				}
				return n.eval(l.c.E)
			}
		}
	}
	if f := x.w.specs.Fns[name]; f != nil && len(f.Params) == 0 {
		return e.callSpec(f, nil)
	}
	if e.pkg != nil {
		if o := e.pkg.Scope().Lookup(name); o != nil {
			return e.object(o)
		}
	}
	serr("unknown name %s", name)
	return TV{}
}

func (e *specEnv) object(o types.Object) TV {
	x := e.x
	switch c := o.(type) {
	case *types.Const:
		switch c.Val().Kind() {
		case constant.Int, constant.Float:
			if c.Val().Kind() == constant.Int {
				return TV{litInt{constBig(c.Val())}, nil}
			}
		case constant.String:
			return TV{x.strConst(constant.StringVal(c.Val())), c.Type()}
		case constant.Bool:
			return tv(mkBool(constant.BoolVal(c.Val())))
		}
	case *types.Var:
		p := x.w.pkgs[o.Pkg().Path()]
		if p == nil {
			serr("no package for %s", o)
		}
		g := p.Var(o.Name())
		if g != nil {
			if x.w.constGlobal(g) {
				return TV{x.globalVal(g, e.st), o.Type()}
			}
			return TV{x.load(e.st, AddrV{Ref: x.globalRef(g), Root: o.Type(), T: o.Type()}), o.Type()}
		}
	}
	serr("cannot use %s in a contract", o)
	return TV{}
}

func (e *specEnv) selector(v *ast.SelectorExpr) TV {
	if id, ok := v.X.(*ast.Ident); ok {
		if _, isVar := e.vars[id.Name]; !isVar && e.pkg != nil {
			known := false
			if e.locals != nil {
				_, known = e.locals(id.Name, e.st)
			}
			if !known && e.pkg.Scope().Lookup(id.Name) == nil {
				for _, im := range e.pkg.Imports() {
					if im.Name() == id.Name {
						if o := im.Scope().Lookup(v.Sel.Name); o != nil {
							return e.object(o)
						}
					}
				}
			}
		}
	}
	b := e.eval(v.X)
	return e.field(b, v.Sel.Name)
}

func (e *specEnv) field(b TV, name string) TV {
	x := e.x
	var t types.Type
	switch s := b.V.(type) {
	case AddrV:
		t = s.T
	case StructV:
		t = s.T
	case IfaceV:
		if s.Known != nil {
			return e.field(TV{s.V, s.Known}, name)
		}
		serr("field %s of an interface", name)
	default:
		serr("field %s of %T", name, b.V)
	}
	obj, idx, _ := types.LookupFieldOrMethod(t, true, e.pkg, name)
	if obj == nil {
		if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Pkg() != nil {
			obj, idx, _ = types.LookupFieldOrMethod(t, true, n.Obj().Pkg(), name)
		}
	}
	if _, ok := obj.(*types.Var); !ok {
		serr("no field %s in %s", name, t)
	}
	cur := b
	for _, i := range idx {
		switch s := cur.V.(type) {
		case AddrV:
			if ia, ok := x.interior[s.Ref]; ok && !s.IsElem && len(s.Path) == 0 {
				s = ia
			}
			st, ok := s.T.Underlying().(*types.Struct)
			if !ok {
				serr("not a struct: %s", s.T)
			}
			fl := st.Field(i)
			n := s
			n.Path = append(append([]pstep{}, s.Path...), pstep{field: i, name: fl.Name(), t: fl.Type()})
			n.T = fl.Type()
			// keep struct-typed fields as addresses so that nested selection works
			if _, isS := fl.Type().Underlying().(*types.Struct); isS && x.scalarSort(fl.Type()) == "" {
				cur = TV{n, fl.Type()}
				continue
			}
			cur = TV{x.load(e.st, n), fl.Type()}
		case StructV:
			st := s.T.Underlying().(*types.Struct)
			cur = TV{s.F[i], st.Field(i).Type()}
		default:
			serr("field path through %T", cur.V)
		}
	}
	return cur
}

func (e *specEnv) index(b, i TV) TV {
	x := e.x
	switch s := b.V.(type) {
	case SliceV:
		it := e.termLike(i, x.idxSort())
		it = e.widen(it, i)
		a := AddrV{Ref: s.Arr, Root: s.Elem, IsElem: true, Idx: mkAdd(s.Off, it), T: s.Elem}
		return TV{x.load(e.st, a), s.Elem}
	case ArrayV:
		it := e.termLike(i, x.idxSort())
		var ts []*Term
		for _, l := range s.Leaves {
			ts = append(ts, mkSelect(l, it))
		}
		return TV{x.fromLeaves(s.T.Elem(), ts), s.T.Elem()}
	case *Term:
		if s.sort == sStr {
			return TV{x.sat(s, e.termLike(i, x.idxSort())), types.Typ[types.Uint8]}
		}
		if strings.HasPrefix(s.sort, "(Array ") {
			return tv(mkSelect(s, e.termLike(i, arrKeySort(s.sort))))
		}
		if b.T != nil {
			if m, ok := b.T.Underlying().(*types.Map); ok {
				kv := i.V
				if _, isl := kv.(litInt); isl {
					kv = e.termLike(i, x.leaves(m.Key())[0].sort)
				}
				// the raw stored value (meaningful when has(m,k))
				_, ks := x.mapDom(e.st, m)
				k := x.toLeaves(kv, m.Key())[0]
				var ts []*Term
				for _, lf := range x.leaves(m.Elem()) {
					vk := "M|" + typeKey(m) + "|val" + lf.path
					h := x.getHeap(e.st, vk, arrSort(sInt, arrSort(ks, lf.sort)))
					ts = append(ts, mkSelect(mkSelect(h, s), k))
				}
				return TV{x.fromLeaves(m.Elem(), ts), m.Elem()}
			}
		}
	case AddrV:
		if arr, ok := s.T.Underlying().(*types.Array); ok {
			it := e.termLike(i, x.idxSort())
			if !s.IsElem && len(s.Path) == 0 {
				return TV{x.load(e.st, AddrV{Ref: s.Ref, Root: arr.Elem(), IsElem: true, Idx: it, T: arr.Elem()}), arr.Elem()}
			}
		}
	}
	serr("index of %T", b.V)
	return TV{}
}

func (e *specEnv) widen(t *Term, v TV) *Term {
	if isBV(t.sort) && bvWidth(t.sort) != 64 {
		s := false
		if v.T != nil {
			_, s, _ = intInfo(v.T)
		}
		return e.x.bvResize(t, bvWidth(t.sort), 64, s)
	}
	return t
}

func (e *specEnv) unify(a, b TV) (*Term, *Term, types.Type) {
	_, la := a.V.(litInt)
	_, lb := b.V.(litInt)
	t := a.T
	if t == nil {
		t = b.T
	}
	if la && !lb {
		q := e.term(b)
		return e.termLike(a, q.sort), q, b.T
	}
	p := e.term(a)
	q := e.termLike(b, p.sort)
	if isBV(p.sort) && isBV(q.sort) && p.sort != q.sort {
		wp, wq := bvWidth(p.sort), bvWidth(q.sort)
		sgn := func(v TV) bool {
			if v.T == nil {
				return false
			}
			_, s, _ := intInfo(v.T)
			return s
		}
		if wp < wq {
			p = e.x.bvResize(p, wp, wq, sgn(a))
		} else {
			q = e.x.bvResize(q, wq, wp, sgn(b))
		}
	}
	return p, q, t
}

func (e *specEnv) equalTV(a, b TV) *Term {
	x := e.x
	if _, ok := b.V.(nilMark); ok {
		a, b = b, a
	}
	if _, ok := a.V.(nilMark); ok {
		switch q := b.V.(type) {
		case nilMark:
			return tTrue
		case IfaceV:
			return x.isNilIface(q)
		case SliceV:
			return mkEq(q.Arr, mkInt(0))
		case AddrV:
			if q.IsElem || len(q.Path) > 0 {
				return tFalse
			}
			return mkEq(q.Ref, mkInt(0))
		case FuncV:
			if q.Fn != nil {
				return tFalse
			}
			return mkEq(q.T, mkVar("zero_Fun", "Fun"))
		case *Term:
			if q.sort == sAny {
				return mkEq(q, nilAny)
			}
			return mkEq(q, mkInt(0))
		}
	}
	switch p := a.V.(type) {
	case SliceV:
		q, ok := b.V.(SliceV)
		if !ok {
			serr("slice compared with %T", b.V)
		}
		// header equality
		return mkAnd(mkEq(p.Arr, q.Arr), mkEq(p.Off, q.Off), mkEq(p.Len, q.Len))
	case IfaceV:
		switch q := b.V.(type) {
		case IfaceV:
			return x.ifaceEq(p, q)
		case *Term:
			if q.sort == sAny {
				return mkEq(x.box(p), q)
			}
		}
	case StructV, ArrayV, AddrV, FuncV:
		if t, ok := b.V.(*Term); ok {
			return mkEq(e.term(a), t)
		}
		return x.equal(a.V, b.V, a.T)
	}
	if q, ok := b.V.(IfaceV); ok {
		return mkEq(e.term(a), x.box(q))
	}
	p, q, _ := e.unify(a, b)
	if p.sort == sStr {
		return x.strEq(p, q)
	}
	return mkEq(p, q)
}

func (e *specEnv) binary(v *ast.BinaryExpr) TV {
	x := e.x
	switch v.Op {
	case token.LAND:
		a := e.bool(v.X)
		if a == tFalse {
			return tv(tFalse)
		}
		return tv(mkAnd(a, e.bool(v.Y)))
	case token.LOR:
		a := e.bool(v.X)
		if a == tTrue {
			return tv(tTrue)
		}
		return tv(mkOr(a, e.bool(v.Y)))
	case token.EQL:
		return tv(e.equalTV(e.eval(v.X), e.eval(v.Y)))
	case token.NEQ:
		return tv(mkNot(e.equalTV(e.eval(v.X), e.eval(v.Y))))
	}
	a, b := e.eval(v.X), e.eval(v.Y)
	if l, ok := a.V.(litInt); ok {
		if r, ok := b.V.(litInt); ok {
			z := new(big.Int)
			switch v.Op {
			case token.ADD:
				return TV{litInt{z.Add(l.n, r.n)}, nil}
			case token.SUB:
				return TV{litInt{z.Sub(l.n, r.n)}, nil}
			case token.MUL:
				return TV{litInt{z.Mul(l.n, r.n)}, nil}
			case token.SHL:
				return TV{litInt{z.Lsh(l.n, uint(r.n.Int64()))}, nil}
			}
		}
	}
	if v.Op == token.SHL || v.Op == token.SHR {
		p := e.term(a)
		if isBV(p.sort) {
			q := e.termLike(b, p.sort)
			if v.Op == token.SHL {
				return TV{raw("bvshl", p.sort, p, q), a.T}
			}
			return TV{raw("bvlshr", p.sort, p, q), a.T}
		}
		q := e.term(b)
		if v.Op == token.SHL {
			return TV{mkMul(p, x.pow2t(q)), a.T}
		}
		return TV{mkDivE(p, x.pow2t(q)), a.T}
	}
	p, q, t := e.unify(a, b)
	signed := true
	if t != nil {
		if _, s, ok := intInfo(t); ok {
			signed = s
		}
	}
	if p.sort == sStr && v.Op == token.ADD {
		return TV{x.concat(p, q), t}
	}
	if p.sort != sInt && !isBV(p.sort) {
		serr("operator %s on sort %s", v.Op, p.sort)
	}
	switch v.Op {
	case token.ADD:
		return TV{mkAdd(p, q), t}
	case token.SUB:
		return TV{mkSub(p, q), t}
	case token.MUL:
		return TV{mkMul(p, q), t}
	case token.QUO:
		if isBV(p.sort) {
			return TV{raw("bvudiv", p.sort, p, q), t}
		}
		return TV{mkDivE(p, q), t}
	case token.REM:
		if isBV(p.sort) {
			return TV{raw("bvurem", p.sort, p, q), t}
		}
		return TV{mkModE(p, q), t}
	case token.LSS:
		return tv(x.ltI(p, q, signed))
	case token.LEQ:
		return tv(x.leI(p, q, signed))
	case token.GTR:
		return tv(x.ltI(q, p, signed))
	case token.GEQ:
		return tv(x.leI(q, p, signed))
	case token.AND:
		if isBV(p.sort) {
			return TV{raw("bvand", p.sort, p, q), t}
		}
		return TV{x.bitAnd(p, q, types.Typ[types.Int64]), t}
	case token.OR:
		if isBV(p.sort) {
			return TV{raw("bvor", p.sort, p, q), t}
		}
		return TV{x.bitOr(p, q, types.Typ[types.Int64]), t}
	case token.XOR:
		if isBV(p.sort) {
			return TV{raw("bvxor", p.sort, p, q), t}
		}
	}
	serr("operator %s", v.Op)
	return TV{}
}

// mkAll builds a universally quantified fact with usable patterns.
func (x *Ctx) mkAll(i *Term, guard, body *Term) *Term {
	full := mkImp(guard, body)
	if full == tTrue {
		return tTrue
	}
	// find array reads at i + rest, and applications f(.., i, ..)
	type rd struct{ arr, rest *Term }
	var reads []rd
	// variables bound inside the body must not occur in a trigger; the ones of
	// quantifiers around it may
	inner := map[*Term]bool{i: true}
	for _, t := range collect([]*Term{full}) {
		for _, b := range t.bvs {
			inner[b] = true
		}
	}
	hasMemo := map[*Term]bool{}
	var has func(t *Term) bool
	has = func(t *Term) bool {
		if !t.hasB {
			return false
		}
		if inner[t] {
			return true
		}
		if r, ok := hasMemo[t]; ok {
			return r
		}
		r := false
		for _, a := range t.args {
			if has(a) {
				r = true
				break
			}
		}
		hasMemo[t] = r
		return r
	}
	seen := map[*Term]bool{}
	var apps []*Term
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] || !t.hasB {
			return
		}
		seen[t] = true
		if t.op == "exists" {
			return
		}
		if t.op == "select" && i.sort == sInt && t.args[1].sort == sInt && !has(t.args[0]) {
			l := toLin(t.args[1])
			if c, ok := l.c[i]; ok && c.Cmp(big.NewInt(1)) == 0 {
				rest := mkSub(t.args[1], i)
				if !has(rest) {
					reads = append(reads, rd{t.args[0], rest})
				}
			}
		}
		if t.op == "select" && i.sort != sInt && t.args[1] == i && !has(t.args[0]) {
			reads = append(reads, rd{t.args[0], nil})
		}
		if t.op == "select" && isBV(i.sort) && t.args[1].op == "bvadd" && !has(t.args[0]) {
			p, q := t.args[1].args[0], t.args[1].args[1]
			if q == i {
				p, q = q, p
			}
			if p == i && !has(q) {
				reads = append(reads, rd{t.args[0], q})
			}
		}
		if t.op == "app" {
			direct := false
			ok := true
			for _, a := range t.args {
				if a == i {
					direct = true
				} else if has(a) {
					ok = false
				}
			}
			if direct && ok {
				apps = append(apps, t)
			}
		}
		for _, a := range t.args {
			walk(a)
		}
	}
	walk(full)
	// one quantifier per shift of the variable, with all its triggers
	var out []*Term
	type group struct {
		rest *Term
		j    *Term
		pats [][]*Term
	}
	var groups []*group
	at := func(rest *Term) *group {
		for _, g := range groups {
			if g.rest == rest {
				return g
			}
		}
		g := &group{rest: rest, j: freshBound("j", i.sort)}
		groups = append(groups, g)
		return g
	}
	none := x.idxConst(0)
	if i.sort != sInt && !isBV(i.sort) {
		none = nil
	}
	used := map[*Term]bool{}
	for _, r := range reads {
		rest := r.rest
		if rest == nil {
			rest = none
		}
		g := at(rest)
		pat := mkSelect(r.arr, g.j)
		if pat.op != "select" || used[pat] {
			continue
		}
		used[pat] = true
		g.pats = append(g.pats, []*Term{pat})
	}
	for _, a := range apps {
		g := at(none)
		pat := subst(a, map[*Term]*Term{i: g.j}, map[*Term]*Term{})
		if !used[pat] {
			used[pat] = true
			g.pats = append(g.pats, []*Term{pat})
		}
	}
	for _, g := range groups {
		if len(g.pats) == 0 {
			continue
		}
		by := g.j
		if g.rest != none {
			by = mkSub(g.j, g.rest)
		}
		b := subst(full, map[*Term]*Term{i: by}, map[*Term]*Term{})
		if b == tTrue {
			continue
		}
		out = append(out, mkForall([]*Term{g.j}, b, g.pats...))
	}
	if len(out) == 0 {
		return mkForall([]*Term{i}, full)
	}
	return mkAnd(out...)
}

func (e *specEnv) quant(v *ast.CallExpr, name string) TV {
	x := e.x
	id, ok := v.Args[0].(*ast.Ident)
	if !ok {
		serr("quantifier needs a variable")
	}
	switch name {
	case "all", "ex":
		i := freshBound(id.Name, x.idxSort())
		var g, body *Term
		if len(v.Args) == 4 {
			lo := e.termLike(e.eval(v.Args[1]), x.idxSort())
			hi := e.termLike(e.eval(v.Args[2]), x.idxSort())
			g = mkAnd(x.leI(lo, i, true), x.ltI(i, hi, true))
			if isConst(lo) && isConst(hi) && lo.sort == sInt {
				n := new(big.Int).Sub(hi.num, lo.num)
				if n.IsInt64() && n.Int64() <= 8 {
					var ts []*Term
					for k := int64(0); k < n.Int64(); k++ {
						c := mkBig(new(big.Int).Add(lo.num, big.NewInt(k)))
						ts = append(ts, e.with(id.Name, TV{c, types.Typ[types.Int]}).bool(v.Args[3]))
					}
					if name == "all" {
						return tv(mkAnd(ts...))
					}
					return tv(mkOr(ts...))
				}
			}
			body = e.with(id.Name, TV{i, types.Typ[types.Int]}).bool(v.Args[3])
		} else {
			g = tTrue
			body = e.with(id.Name, TV{i, types.Typ[types.Int]}).bool(v.Args[1])
		}
		if name == "all" {
			if e.assuming || true {
				return tv(x.mkAll(i, g, body))
			}
		}
		return tv(mkExists([]*Term{i}, mkAnd(g, body)))
	case "alls":
		s := freshBound(id.Name, sStr)
		body := e.with(id.Name, TV{s, types.Typ[types.String]}).bool(v.Args[1])
		return tv(x.mkAll(s, tTrue, body))
	}
	return TV{}
}

func (e *specEnv) ghost(name string, ref *Term, sort string) *Term {
	h := e.x.getHeap(e.st, "G|"+name, arrSort(sInt, sort))
	return mkSelect(h, ref)
}

func (e *specEnv) byteArrSort() string { return arrSort(e.x.idxSort(), e.x.byteSort()) }

// streamRef: identity of the stream behind a reader/writer value
func (e *specEnv) streamRef(n ast.Expr) *Term {
	v := e.eval(n)
	return e.x.ifaceRef(v.V)
}

func beTerm(x *Ctx, arr, pos *Term, w int, little bool) *Term {
	r := mkInt(0)
	for k := 0; k < w; k++ {
		p := w - 1 - k
		if little {
			p = k
		}
		b := mkSelect(arr, mkAdd(pos, mkInt(int64(k))))
		if !b.hasB {
			x.fact(mkAnd(mkLe(mkInt(0), b), mkLe(b, mkInt(255))))
		}
		r = mkAdd(r, mkMul(mkBig(pow2(8*p)), b))
	}
	return r
}

func (e *specEnv) goType(lit ast.Expr) types.Type {
	bl, ok := lit.(*ast.BasicLit)
	if !ok {
		serr("type given as a string literal expected")
	}
	s, _ := strconv.Unquote(bl.Value)
	t, err := types.Eval(e.x.w.fset, e.pkg, token.NoPos, s)
	if err != nil {
		// "*pkg.T" of an imported package
		pre := ""
		for strings.HasPrefix(s[len(pre):], "*") || strings.HasPrefix(s[len(pre):], "[]") {
			if s[len(pre)] == '*' {
				pre += "*"
			} else {
				pre += "[]"
			}
		}
		if q := strings.SplitN(s[len(pre):], ".", 2); len(q) == 2 {
			for _, im := range e.pkg.Imports() {
				if im.Name() != q[0] {
					continue
				}
				if o := im.Scope().Lookup(q[1]); o != nil {
					r := o.Type()
					for i := len(pre); i > 0; {
						if pre[i-1] == '*' {
							r = types.NewPointer(r)
							i--
						} else {
							r = types.NewSlice(r)
							i -= 2
						}
					}
					return r
				}
			}
		}
		serr("type %s: %v", s, err)
	}
	return t.Type
}

func (e *specEnv) call(v *ast.CallExpr) TV {
	x := e.x
	id, ok := v.Fun.(*ast.Ident)
	if !ok {
		serr("call of %T", v.Fun)
	}
	name := id.Name
	arg := func(i int) TV { return e.eval(v.Args[i]) }
	switch name {
	case "imp":
		a := e.bool(v.Args[0])
		if a == tFalse {
			return tv(tTrue)
		}
		return tv(mkImp(a, e.bool(v.Args[1])))
	case "iff":
		a, b := e.bool(v.Args[0]), e.bool(v.Args[1])
		return tv(mkAnd(mkImp(a, b), mkImp(b, a)))
	case "all", "ex", "alls":
		return e.quant(v, name)
	case "ite":
		c := e.bool(v.Args[0])
		a, b := arg(1), arg(2)
		if _, isT := a.V.(*Term); !isT {
			if _, isL := a.V.(litInt); !isL {
				return TV{x.mergeVal(c, a.V, b.V, a.T), a.T}
			}
		}
		p, q, t := e.unify(a, b)
		return TV{mkIte(c, p, q), t}
	case "old":
		n := *e
		if e.old == nil {
			serr("old without pre-state")
		}
		n.st = e.old
		if e.initEnv != nil {
			n.initEnv = nil
		}
		return n.eval(v.Args[0])
	case "prev":
		if e.prevState == nil {
			serr("prev outside a loop step")
		}
		n := *e
		n.st = e.prevState
		n.locals = e.f.localsAt(e.li, e.prevVals)
		return n.eval(v.Args[0])
	case "init":
		if e.initState == nil {
			// outside loops: the value in the pre-state
			n := *e
			n.st = e.old
			return n.eval(v.Args[0])
		}
		n := *e
		n.st = e.initState
		n.locals = e.f.localsAt(e.li, e.initVals)
		return n.eval(v.Args[0])
	case "len", "cap":
		a := arg(0)
		switch s := a.V.(type) {
		case SliceV:
			if name == "len" {
				return TV{s.Len, types.Typ[types.Int]}
			}
			return TV{s.Cap, types.Typ[types.Int]}
		case ArrayV:
			return TV{litInt{big.NewInt(s.T.Len())}, nil}
		case *Term:
			if s.sort == sStr {
				return TV{x.slen(s), types.Typ[types.Int]}
			}
			if a.T != nil {
				if m, ok := a.T.Underlying().(*types.Map); ok {
					return TV{x.mapLen(e.st, m, s), types.Typ[types.Int]}
				}
			}
		case AddrV:
			if at, ok := s.T.Underlying().(*types.Array); ok {
				return TV{litInt{big.NewInt(at.Len())}, nil}
			}
		}
		serr("len of %T", a.V)
	case "has":
		m := arg(0)
		mt, ok := m.T.Underlying().(*types.Map)
		if !ok {
			serr("has on non-map")
		}
		k := arg(1)
		kv := k.V
		if _, isl := kv.(litInt); isl {
			kv = e.termLike(k, x.leaves(mt.Key())[0].sort)
		}
		return tv(x.mapHas(e.st, mt, e.term(m), kv))
	case "dom":
		// the key set of a map (of a non-nil one)
		m := arg(0)
		mt, ok := m.T.Underlying().(*types.Map)
		if !ok {
			serr("dom of non-map")
		}
		dk, ks := x.mapDom(e.st, mt)
		return tv(mkSelect(x.getHeap(e.st, dk, arrSort(sInt, arrSort(ks, sBool))), e.term(m)))
	case "rangekey":
		// rangekey(i): the key visited by iteration i of the loop over a map
		if e.li == nil {
			serr("rangekey outside a loop")
		}
		mi, ok := e.f.mapIterOf(e.li.header)
		if !ok {
			serr("rangekey: not a loop over a map")
		}
		return TV{mkSelect(mi.seq, e.termLike(arg(0), sInt)), mi.mt.Key()}
	case "mod":
		p, q, _ := e.unify(arg(0), arg(1))
		return tv(mkModE(p, q))
	case "div":
		p, q, _ := e.unify(arg(0), arg(1))
		return tv(mkDivE(p, q))
	case "min", "max":
		p, q, t := e.unify(arg(0), arg(1))
		if name == "min" {
			return TV{mkIte(x.leI(p, q, true), p, q), t}
		}
		return TV{mkIte(x.leI(p, q, true), q, p), t}
	case "ult":
		p, q, _ := e.unify(arg(0), arg(1))
		return tv(x.ltI(p, q, false))
	case "ule":
		p, q, _ := e.unify(arg(0), arg(1))
		return tv(x.leI(p, q, false))
	case "pow2":
		return tv(x.pow2t(e.term(arg(0))))
	case "outlen":
		return TV{x.natural(e.ghost("outlen", e.streamRef(v.Args[0]), x.idxSort())), types.Typ[types.Int]}
	case "outdat":
		return tv(e.ghost("outdat", e.streamRef(v.Args[0]), e.byteArrSort()))
	case "outat":
		return tv(mkSelect(e.ghost("outdat", e.streamRef(v.Args[0]), e.byteArrSort()), e.termLike(arg(1), x.idxSort())))
	case "inlen":
		return tv(x.inLen(e.streamRef(v.Args[0])))
	case "indat":
		return tv(x.inDat(e.streamRef(v.Args[0])))
	case "inat":
		return tv(mkSelect(x.inDat(e.streamRef(v.Args[0])), e.termLike(arg(1), x.idxSort())))
	case "inpos":
		return TV{x.natural(e.ghost("inpos", e.streamRef(v.Args[0]), x.idxSort())), types.Typ[types.Int]}
	case "ghost":
		bl := v.Args[0].(*ast.BasicLit)
		s, _ := strconv.Unquote(bl.Value)
		return tv(e.ghost("u_"+s, e.streamRef(v.Args[1]), x.idxSort()))
	case "arr":
		a := arg(0)
		s, ok := a.V.(SliceV)
		if !ok {
			serr("arr of %T", a.V)
		}
		return tv(x.elemArr(e.st, s.Elem, s.Arr))
	case "arrf": // arrf(s, ".field.path"): one leaf of a slice of structs
		a := arg(0)
		s := a.V.(SliceV)
		p, _ := strconv.Unquote(v.Args[1].(*ast.BasicLit).Value)
		for _, l := range x.leaves(s.Elem) {
			if l.path == p {
				h := x.getHeap(e.st, elemKey(s.Elem, l.path), arrSort(sInt, arrSort(x.idxSort(), l.sort)))
				return tv(mkSelect(h, s.Arr))
			}
		}
		serr("no leaf %s", p)
	case "off":
		s := arg(0).V.(SliceV)
		return tv(s.Off)
	case "aref":
		s := arg(0).V.(SliceV)
		return tv(s.Arr)
	case "ref":
		return tv(x.ifaceRef(arg(0).V))
	case "any":
		a := arg(0)
		if iv, ok := a.V.(IfaceV); ok {
			return tv(x.box(iv))
		}
		if t, ok := a.V.(*Term); ok && t.sort == sAny {
			return a
		}
		return tv(x.box(IfaceV{Known: a.T, V: a.V}))
	case "isnil":
		return tv(e.equalTV(arg(0), TV{nilMark{}, nil}))
	case "fresh":
		a := arg(0)
		var r *Term
		switch s := a.V.(type) {
		case SliceV:
			r = s.Arr
		case AddrV:
			r = s.Ref
		case *Term:
			r = s
		case IfaceV:
			r = x.ifaceRef(s)
		}
		if e.assuming {
			freshSince[r] = e.old.alloc
		}
		return tv(mkLe(e.old.alloc, r))
	case "live": // exists in the current state
		a := arg(0)
		var r *Term
		switch s := a.V.(type) {
		case SliceV:
			r = s.Arr
		case AddrV:
			r = s.Ref
		case *Term:
			r = s
		}
		return tv(mkLt(r, e.st.alloc))
	case "allocated": // existed in the pre-state
		a := arg(0)
		var r *Term
		switch s := a.V.(type) {
		case SliceV:
			r = s.Arr
		case AddrV:
			r = s.Ref
		case *Term:
			r = s
		}
		return tv(mkLt(r, e.old.alloc))
	case "istype":
		a := arg(0)
		t := e.goType(v.Args[1])
		iv, ok := a.V.(IfaceV)
		if !ok {
			if tt, isT := a.V.(*Term); isT && tt.sort == sAny {
				iv = x.anyVal(tt)
			} else {
				serr("istype of %T", a.V)
			}
		}
		if iv.Known != nil {
			return tv(mkBool(types.Identical(types.Unalias(iv.Known), types.Unalias(t))))
		}
		return tv(mkEq(typOf(iv.T), x.tag(t)))
	case "unboxed":
		a := arg(0)
		t := e.goType(v.Args[1])
		iv, ok := a.V.(IfaceV)
		if !ok {
			if tt, isT := a.V.(*Term); isT && tt.sort == sAny {
				iv = x.anyVal(tt)
			} else {
				serr("unboxed of %T", a.V)
			}
		}
		return TV{x.unbox(iv, t, e.st), t}
	case "be", "le":
		arr := e.term(arg(0))
		pos := e.term(arg(1))
		w := arg(2).V.(litInt).n.Int64()
		return tv(beTerm(x, arr, pos, int(w), name == "le"))
	case "f32bits", "f64bits":
		t := e.term(arg(0))
		r := mkApp(name, sInt, t)
		x.floatFacts(name, t, r)
		return tv(r)
	case "int", "int8", "int16", "int32", "int64", "uint", "uint8", "uint16", "uint32", "uint64", "byte":
		a := arg(0)
		t := types.Universe.Lookup(name).Type()
		if l, ok := a.V.(litInt); ok {
			return TV{x.intConst(l.n, t), t}
		}
		p := e.term(a)
		if isBV(p.sort) {
			w, _, _ := intInfo(t)
			s := false
			if a.T != nil {
				_, s, _ = intInfo(a.T)
			}
			return TV{x.bvResize(p, bvWidth(p.sort), w, s), t}
		}
		return TV{p, t}
	case "wrap": // wrap("int32", e)
		s, _ := strconv.Unquote(v.Args[0].(*ast.BasicLit).Value)
		return tv(x.wrap(e.term(arg(1)), types.Universe.Lookup(s).Type()))
	case "concat":
		return TV{x.concat(e.term(arg(0)), e.term(arg(1))), types.Typ[types.String]}
	case "unchanged":
		n := *e
		n.st = e.old
		return tv(e.equalTV(e.eval(v.Args[0]), n.eval(v.Args[0])))
	case "idx": // index constant of the slice sort
		return tv(e.termLike(arg(0), x.idxSort()))
	case "str": // str(b): the string with the bytes of slice b
		s, ok := arg(0).V.(SliceV)
		if !ok {
			serr("str of non-slice")
		}
		return TV{x.bytesToString(s, e.st), types.Typ[types.String]}
	}
	if f := x.w.specs.Fns[name]; f != nil {
		var args []*Term
		if len(v.Args) != len(f.Params) {
			serr("%s: %d arguments expected", name, len(f.Params))
		}
		if f.Pred {
			n := *e
			n.vars = map[string]TV{}
			n.locals = nil
			n.depth++
			if n.depth > 60 {
				serr("definition %s nests too deeply", f.Name)
			}
			for i, p := range f.Params {
				n.vars[p.name] = arg(i)
			}
			return n.eval(f.Body)
		}
		for i := range v.Args {
			args = append(args, e.termLike(arg(i), x.specSort(f.Params[i].sort)))
		}
		return e.callSpec(f, args)
	}
	serr("unknown function %s", name)
	return TV{}
}

func (x *Ctx) specSort(s string) string {
	switch s {
	case "int", "Int":
		return sInt
	case "bool", "Bool":
		return sBool
	case "string", "Str":
		return sStr
	case "Bytes":
		return arrSort(x.idxSort(), x.byteSort())
	case "Words":
		return arrSort(x.idxSort(), x.wordSort())
	case "Idx":
		return x.idxSort()
	case "StrSet":
		return arrSort(sStr, sBool)
	case "Strs":
		return arrSort(x.idxSort(), sStr)
	case "u8":
		return bvSort(8)
	case "u16":
		return bvSort(16)
	case "u32":
		return bvSort(32)
	case "u64":
		return bvSort(64)
	}
	return s
}

func (e *specEnv) callSpec(f *SpecFn, args []*Term) TV {
	x := e.x
	ret := x.specSort(f.Ret)
	hidden := f.Opaque && !x.con.Reveal[f.Name]
	if f.Body != nil && !f.Rec && !hidden {
		n := &specEnv{x: x, st: e.st, old: e.old, vars: map[string]TV{}, pkg: e.pkg, depth: e.depth + 1, assuming: e.assuming}
		for i, p := range f.Params {
			n.vars[p.name] = TV{args[i], nil}
		}
		if n.depth > 60 {
			serr("definition %s nests too deeply", f.Name)
		}
		r := n.eval(f.Body)
		return TV{n.termLike(r, ret), nil}
	}
	for i, p := range f.Params {
		if args[i].sort != x.specSort(p.sort) {
			serr("%s: argument %d has sort %s, want %s", f.Name, i+1, args[i].sort, x.specSort(p.sort))
		}
	}
	x.usedFns[f.Name] = true
	return tv(mkApp("spec_"+f.Name, ret, args...))
}

// ---- modifies clauses

func (x *Ctx) evalModifies(c Clause, env *specEnv) (out []loc) {
	defer func() {
		if r := recover(); r != nil {
			if v, ok := r.(specErr); ok {
				panic(unsupported{fmt.Sprintf("%s: modifies %q: %s", c.Line, c.Text, v.msg)})
			}
			panic(r)
		}
	}()
	return env.mods(c.E)
}

func (e *specEnv) mods(n ast.Expr) []loc {
	x := e.x
	objLocs := func(a AddrV) []loc {
		var out []loc
		if ia, ok := x.interior[a.Ref]; ok && !a.IsElem && len(a.Path) == 0 {
			a = ia
		}
		pre := pathStr(a.Path)
		if arr, ok := a.T.Underlying().(*types.Array); ok && !a.IsElem && len(a.Path) == 0 {
			for _, l := range x.leaves(arr.Elem()) {
				out = append(out, loc{key: elemKey(arr.Elem(), l.path), sort: arrSort(sInt, arrSort(x.idxSort(), l.sort)), ref: a.Ref})
			}
			return out
		}
		for _, l := range x.leaves(a.T) {
			b := a
			if a.IsElem {
				out = append(out, loc{key: elemKey(a.Root, pre+l.path), sort: arrSort(sInt, arrSort(x.idxSort(), x.wrapIdx(l.sort, nIdx(a.Path)))), ref: a.Ref, addr: &b, path: pre + l.path, lsrt: l.sort})
			} else if nIdx(a.Path) > 0 {
				out = append(out, loc{key: fieldKey(a.Root, pre+l.path), sort: arrSort(sInt, x.wrapIdx(l.sort, nIdx(a.Path))), ref: a.Ref, addr: &b, path: pre + l.path, lsrt: l.sort})
			} else {
				out = append(out, loc{key: fieldKey(a.Root, pre+l.path), sort: arrSort(sInt, l.sort), ref: a.Ref})
			}
		}
		return out
	}
	switch v := n.(type) {
	case *ast.SelectorExpr:
		b := e.eval(v.X)
		if iv, ok := b.V.(IfaceV); ok && iv.Known != nil {
			b = TV{iv.V, iv.Known}
		}
		a, ok := b.V.(AddrV)
		if !ok {
			serr("modifies: %T has no address", b.V)
		}
		if ia, ok := x.interior[a.Ref]; ok && !a.IsElem && len(a.Path) == 0 {
			a = ia
		}
		obj, idx, _ := types.LookupFieldOrMethod(a.T, true, e.pkg, v.Sel.Name)
		if obj == nil {
			serr("no field %s", v.Sel.Name)
		}
		for _, i := range idx {
			st := a.T.Underlying().(*types.Struct)
			fl := st.Field(i)
			a.Path = append(append([]pstep{}, a.Path...), pstep{field: i, name: fl.Name(), t: fl.Type()})
			a.T = fl.Type()
		}
		return objLocs(a)
	case *ast.StarExpr:
		b := e.eval(v.X)
		a, ok := b.V.(AddrV)
		if !ok {
			serr("modifies *: not a pointer")
		}
		return objLocs(a)
	case *ast.IndexExpr:
		b := e.eval(v.X)
		if s, ok := b.V.(SliceV); ok {
			i := e.termLike(e.eval(v.Index), x.idxSort())
			return objLocs(AddrV{Ref: s.Arr, Root: s.Elem, IsElem: true, Idx: mkAdd(s.Off, i), T: s.Elem})
		}
	case *ast.CallExpr:
		name := v.Fun.(*ast.Ident).Name
		switch name {
		case "elems":
			b := e.eval(v.Args[0])
			s, ok := b.V.(SliceV)
			if !ok {
				serr("elems of %T", b.V)
			}
			var out []loc
			for _, l := range x.leaves(s.Elem) {
				out = append(out, loc{key: elemKey(s.Elem, l.path), sort: arrSort(sInt, arrSort(x.idxSort(), l.sort)), ref: s.Arr})
			}
			return out
		case "out":
			r := e.streamRef(v.Args[0])
			return []loc{{key: "G|outlen", sort: arrSort(sInt, x.idxSort()), ref: r}, {key: "G|outdat", sort: arrSort(sInt, e.byteArrSort()), ref: r}}
		case "in":
			r := e.streamRef(v.Args[0])
			return []loc{{key: "G|inpos", sort: arrSort(sInt, x.idxSort()), ref: r}}
		case "inall":
			return []loc{{key: "G|inpos", sort: arrSort(sInt, x.idxSort())}}
		case "outall":
			return []loc{{key: "G|outlen", sort: arrSort(sInt, x.idxSort())}, {key: "G|outdat", sort: arrSort(sInt, e.byteArrSort())}}
		case "ghost":
			s, _ := strconv.Unquote(v.Args[0].(*ast.BasicLit).Value)
			return []loc{{key: "G|u_" + s, sort: arrSort(sInt, x.idxSort()), ref: e.streamRef(v.Args[1])}}
		case "entries":
			b := e.eval(v.Args[0])
			m := b.T.Underlying().(*types.Map)
			_, ks := x.mapDom(e.st, m)
			r := e.term(b)
			out := []loc{{key: "M|" + typeKey(m) + "|dom", sort: arrSort(sInt, arrSort(ks, sBool)), ref: r}, {key: "M|" + typeKey(m) + "|len", sort: arrSort(sInt, x.idxSort()), ref: r}}
			for _, l := range x.leaves(m.Elem()) {
				out = append(out, loc{key: "M|" + typeKey(m) + "|val" + l.path, sort: arrSort(sInt, arrSort(ks, l.sort)), ref: r})
			}
			return out
		case "everyfield": // everyfield(x.f): that field of every object
			ls := e.mods(v.Args[0])
			for i := range ls {
				ls[i].ref = nil
				ls[i].addr = nil
			}
			return ls
		case "every": // every(elems(s))
			ls := e.mods(v.Args[0])
			for i := range ls {
				ls[i].ref = nil
				ls[i].addr = nil
			}
			return ls
		}
	}
	serr("unsupported modifies clause")
	return nil
}

// ---- streams

// natural: lengths and positions of ghost streams are natural numbers
func (x *Ctx) natural(t *Term) *Term {
	if !t.hasB && !isConst(t) {
		x.fact(x.leI(x.idxConst(0), t, true))
	}
	return t
}

func (x *Ctx) inDat(ref *Term) *Term {
	return mkApp("indat", arrSort(x.idxSort(), x.byteSort()), ref)
}
func (x *Ctx) inLen(ref *Term) *Term {
	t := mkApp("inlen", x.idxSort(), ref)
	if !t.hasB {
		x.fact(x.leI(x.idxConst(0), t, true))
	}
	return t
}

func (x *Ctx) floatFacts(name string, f, bits *Term) {
	if f.hasB {
		return
	}
	n := 32
	if name == "f64bits" {
		n = 64
	}
	x.fact(mkAnd(mkLe(mkInt(0), bits), mkLt(bits, mkBig(pow2(n)))))
	x.fact(mkEq(mkApp(map[int]string{32: "f32of", 64: "f64of"}[n], f.sort, bits), f))
}

// ---- locals visible in loop invariants

func (f *frame) specEnvAt(st *State, li *loopInfo, vals map[*ssa.Phi]Val) *specEnv {
	x := f.x
	env := &specEnv{x: x, st: st, old: f.old, vars: map[string]TV{}, con: f.con, f: f, li: li}
	if f.fn.Pkg != nil {
		env.pkg = f.fn.Pkg.Pkg
	} else if f.fn.Parent() != nil && f.fn.Parent().Pkg != nil {
		env.pkg = f.fn.Parent().Pkg.Pkg
	}
	sig := f.fn.Signature
	i := 0
	if sig.Recv() != nil && len(f.fn.Params) > 0 {
		nm := ""
		if f.con != nil {
			nm = f.con.Recv
		}
		if nm == "" {
			nm = f.fn.Params[0].Name()
		}
		env.vars[nm] = TV{f.env[f.fn.Params[0]], f.fn.Params[0].Type()}
		i = 1
	}
	// parameters under their contract names denote the current value of the variable
	env.locals = f.localsAt(li, vals)
	for k := i; k < len(f.fn.Params); k++ {
		nm := f.fn.Params[k].Name()
		cn := nm
		if f.con != nil && k-i < len(f.con.Params) {
			cn = f.con.Params[k-i]
		}
		if cn != nm {
			if v, ok := env.locals(nm, st); ok {
				env.vars[cn] = v
			} else {
				env.vars[cn] = TV{f.env[f.fn.Params[k]], f.fn.Params[k].Type()}
			}
		}
		env.vars["arg_"+cn] = TV{f.env[f.fn.Params[k]], f.fn.Params[k].Type()}
	}
	return env
}

func (f *frame) localsAt(li *loopInfo, vals map[*ssa.Phi]Val) func(string, *State) (TV, bool) {
	return f.localsIn(li.header, li, vals)
}

// localsIn: the variables in scope at block h (at a loop head when li is set,
// else at the end of the block).
func (f *frame) localsIn(h *ssa.BasicBlock, li *loopInfo, vals map[*ssa.Phi]Val) func(string, *State) (TV, bool) {
	return func(name string, st *State) (TV, bool) {
		// phis of this header
		for p, v := range vals {
			if p.Comment == name {
				return TV{v, p.Type()}, true
			}
		}
		if name == "iter" {
			if mi, ok := f.mapIterOf(h); ok {
				return TV{mkSelect(f.x.getHeap(st, mi.key, arrSort(sInt, sInt)), mkInt(0)), types.Typ[types.Int]}, true
			}
			for p, v := range vals {
				if p.Comment == "rangeindex" {
					if t, ok := v.(*Term); ok {
						return TV{mkAdd(t, f.x.idxConst(1)), types.Typ[types.Int]}, true
					}
				}
				if p.Comment == "rangeint.iter" {
					return TV{v, p.Type()}, true
				}
			}
		}
		// enclosing loops' iterators: iter1 is the next one out, ...
		if strings.HasPrefix(name, "iter") && len(name) == 5 {
			d := int(name[4] - '0')
			var encl []*loopInfo
			for _, o := range f.loopHdr {
				l := f.loops[o]
				if l != li && l.body[h] {
					encl = append(encl, l)
				}
			}
			// innermost first: larger ordinals of enclosing loops are inner
			if d >= 1 && d <= len(encl) {
				l := encl[len(encl)-d]
				for _, in := range l.header.Instrs {
					if p, ok := in.(*ssa.Phi); ok {
						if p.Comment == "rangeindex" || p.Comment == "rangeint.iter" {
							if t, ok := f.env[p].(*Term); ok {
								// inside the body the current index is already taken
								if p.Comment == "rangeindex" {
									t = mkAdd(t, f.x.idxConst(1))
								}
								return TV{t, types.Typ[types.Int]}, true
							}
						}
					}
				}
			}
		}
		// variables held in memory (captured or address taken)
		var best ssa.Value
		var bestBlk *ssa.BasicBlock
		bestIdx := -1
		isAddr := false
		for _, b := range f.fn.Blocks {
			if !(b == h || b.Dominates(h)) {
				continue
			}
			for i, in := range b.Instrs {
				var v ssa.Value
				addr := false
				switch d := in.(type) {
				case *ssa.DebugRef:
					if o := d.Object(); o == nil || o.Name() != name {
						continue
					}
					v, addr = d.X, d.IsAddr
				case *ssa.Phi:
					if d.Comment != name || b == h && li != nil {
						continue
					}
					v = d
				case *ssa.Alloc:
					if d.Comment != name {
						continue
					}
					v, addr = d, true
				default:
					continue
				}
				if b == h && li != nil {
					continue // not yet executed at the loop head
				}
				if isAddr && !addr {
					continue // a read of a variable that lives in memory
				}
				if best == nil || addr && !isAddr || bestBlk == b && i > bestIdx || bestBlk != b && bestBlk.Dominates(b) {
					best, bestBlk, bestIdx, isAddr = v, b, i, addr
				}
			}
		}
		for _, p := range f.fn.Params {
			if p.Name() == name && best == nil {
				return TV{f.env[p], p.Type()}, true
			}
		}
		for _, p := range f.fn.FreeVars {
			if p.Name() == name {
				if a, ok := f.env[p].(AddrV); ok {
					return TV{f.x.load(st, a), a.T}, true
				}
				return TV{f.env[p], p.Type()}, true
			}
		}
		if best == nil {
			return TV{}, false
		}
		var v Val
		func() {
			defer func() {
				if r := recover(); r != nil {
					if _, ok := r.(unsupported); !ok {
						panic(r)
					}
				}
			}()
			v = f.val(best, st)
		}()
		if v == nil {
			return TV{}, false
		}
		if isAddr {
			a, ok := v.(AddrV)
			if !ok {
				return TV{}, false
			}
			return TV{f.x.load(st, a), a.T}, true
		}
		return TV{v, best.Type()}, true
	}
}

// mapIterOf finds the map iteration driven by a loop header.
func (f *frame) mapIterOf(h *ssa.BasicBlock) (MapIterV, bool) {
	for _, in := range h.Instrs {
		if n, ok := in.(*ssa.Next); ok {
			mi, ok := f.env[n.Iter].(MapIterV)
			return mi, ok && mi.seq != nil
		}
	}
	return MapIterV{}, false
}

func (f *frame) useLemmas(ls *LoopSpec, env *specEnv, pc *Term) {
	if ls == nil {
		return
	}
	for _, c := range ls.Use {
		f.x.useLemma(c, env, pc)
	}
}

// useLemma assumes an instance of a proved lemma.
func (x *Ctx) useLemma(c Clause, env *specEnv, pc *Term) {
	// all(i, lo, hi, lemma(...)) : quantified use
	call, ok := c.E.(*ast.CallExpr)
	if !ok {
		unsup("%s: use needs lemma(args)", c.Line)
	}
	id := call.Fun.(*ast.Ident).Name
	if id == "all" {
		v := call.Args[0].(*ast.Ident)
		i := freshBound(v.Name, x.idxSort())
		e2 := env.with(v.Name, TV{i, types.Typ[types.Int]})
		g := tTrue
		inner := call.Args[len(call.Args)-1].(*ast.CallExpr)
		if len(call.Args) == 4 {
			lo := env.termLike(env.eval(call.Args[1]), x.idxSort())
			hi := env.termLike(env.eval(call.Args[2]), x.idxSort())
			g = mkAnd(mkLe(lo, i), mkLt(i, hi))
		}
		t := x.lemmaInstance(inner, e2, c)
		x.fact(mkImp(pc, x.mkAll(i, g, t)))
		return
	}
	x.fact(mkImp(pc, x.lemmaInstance(call, env, c)))
}

func (x *Ctx) lemmaInstance(call *ast.CallExpr, env *specEnv, c Clause) *Term {
	id := call.Fun.(*ast.Ident).Name
	l := x.w.specs.Lemmas[id]
	if f := x.w.specs.Fns[id]; l == nil && f != nil && f.Body != nil {
		// a definition unfolded at these arguments
		if len(call.Args) != len(f.Params) {
			unsup("%s: %s takes %d arguments", c.Line, id, len(f.Params))
		}
		d := x.specDef(f)
		m := map[*Term]*Term{}
		var args []*Term
		for i, p := range f.Params {
			a := env.termLike(env.eval(call.Args[i]), x.specSort(p.sort))
			args = append(args, a)
			m[d.params[i]] = a
		}
		x.usedFns[f.Name] = true
		return mkEq(mkApp("spec_"+f.Name, d.ret, args...), subst(d.body, m, map[*Term]*Term{}))
	}
	if l == nil {
		unsup("%s: unknown lemma %s", c.Line, id)
	}
	x.called["lemma: "+id] = true
	if l.Axiom {
		x.assumeNote("axiom " + id + " (" + l.Where + ")")
	}
	x.usedLemmas[id] = true
	n := &specEnv{x: x, st: env.st, old: env.old, vars: map[string]TV{}, pkg: env.pkg}
	if len(call.Args) != len(l.Params) {
		unsup("%s: lemma %s takes %d arguments", c.Line, id, len(l.Params))
	}
	for i, p := range l.Params {
		n.vars[p.name] = TV{env.termLike(env.eval(call.Args[i]), x.specSort(p.sort)), nil}
	}
	var hs, cs []*Term
	for _, r := range l.Req {
		hs = append(hs, x.evalClause(r, n))
	}
	for _, r := range l.Ens {
		cs = append(cs, x.evalClause(r, n))
	}
	return mkImp(mkAnd(hs...), mkAnd(cs...))
}

func (x *Ctx) wordSort() string {
	if x.bv {
		return bvSort(32)
	}
	return sInt
}
