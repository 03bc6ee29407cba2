package main

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

// Term is a hash-consed SMT term.
type Term struct {
	op   string // SMT operator, or "const" (num), "var", "bound", "forall", "lin"
	name string // for var/const/bound/app
	args []*Term
	sort string
	id   int
	num  *big.Int   // for integer / bitvector constants
	coef []*big.Int // for lin: coefficients of args; num is the constant part
	bvs  []*Term    // forall: bound variables
	pats [][]*Term  // forall: patterns
	hasB bool       // contains a free bound variable
}

var termTab = map[string]*Term{}
var termList []*Term

func intern(t *Term) *Term {
	var sb strings.Builder
	sb.WriteString(t.op)
	sb.WriteByte('|')
	sb.WriteString(t.name)
	sb.WriteByte('|')
	sb.WriteString(t.sort)
	if t.num != nil {
		sb.WriteByte('#')
		sb.WriteString(t.num.String())
	}
	for i, a := range t.args {
		sb.WriteByte(',')
		if t.coef != nil {
			sb.WriteString(t.coef[i].String())
			sb.WriteByte('*')
		}
		fmt.Fprint(&sb, a.id)
	}
	for _, a := range t.bvs {
		fmt.Fprint(&sb, ";", a.id)
	}
	k := sb.String()
	if x, ok := termTab[k]; ok {
		return x
	}
	t.id = len(termList)
	t.hasB = t.op == "bound"
	for _, a := range t.args {
		if a.hasB {
			t.hasB = true
		}
	}
	if t.op == "forall" || t.op == "exists" {
		// closed iff no free bounds other than own
		fr := map[*Term]bool{}
		freeBounds(t.args[0], fr, map[*Term]bool{})
		for _, b := range t.bvs {
			delete(fr, b)
		}
		t.hasB = len(fr) > 0
	}
	termTab[k] = t
	termList = append(termList, t)
	return t
}

func freeBounds(t *Term, out map[*Term]bool, seen map[*Term]bool) {
	if !t.hasB || seen[t] {
		return
	}
	seen[t] = true
	if t.op == "bound" {
		out[t] = true
		return
	}
	if t.op == "forall" || t.op == "exists" {
		in := map[*Term]bool{}
		freeBounds(t.args[0], in, map[*Term]bool{})
		for _, b := range t.bvs {
			delete(in, b)
		}
		for k := range in {
			out[k] = true
		}
		return
	}
	for _, a := range t.args {
		freeBounds(a, out, seen)
	}
}

const (
	sInt  = "Int"
	sBool = "Bool"
	sStr  = "Str"
	sAny  = "Any"
)

func bvSort(n int) string { return fmt.Sprintf("(_ BitVec %d)", n) }
func isBV(s string) bool  { return strings.HasPrefix(s, "(_ BitVec ") }
func bvWidth(s string) int {
	var n int
	fmt.Sscanf(s, "(_ BitVec %d)", &n)
	return n
}
func arrSort(k, v string) string { return "(Array " + k + " " + v + ")" }
func arrElemSort(s string) string {
	// (Array K V) -> V ; K is never a compound sort except bit-vectors
	in := s[len("(Array ") : len(s)-1]
	d := 0
	for i := 0; i < len(in); i++ {
		switch in[i] {
		case '(':
			d++
		case ')':
			d--
		case ' ':
			if d == 0 {
				return in[i+1:]
			}
		}
	}
	panic("bad array sort " + s)
}
func arrKeySort(s string) string {
	in := s[len("(Array ") : len(s)-1]
	d := 0
	for i := 0; i < len(in); i++ {
		switch in[i] {
		case '(':
			d++
		case ')':
			d--
		case ' ':
			if d == 0 {
				return in[:i]
			}
		}
	}
	panic("bad array sort " + s)
}

var tTrue = intern(&Term{op: "true", sort: sBool})
var tFalse = intern(&Term{op: "false", sort: sBool})

func mkBool(b bool) *Term {
	if b {
		return tTrue
	}
	return tFalse
}
func mkInt(n int64) *Term { return mkBig(big.NewInt(n)) }
func mkBig(n *big.Int) *Term {
	return intern(&Term{op: "const", sort: sInt, num: new(big.Int).Set(n)})
}
func mkBV(n *big.Int, w int) *Term {
	m := new(big.Int).Lsh(big.NewInt(1), uint(w))
	v := new(big.Int).Mod(n, m)
	return intern(&Term{op: "const", sort: bvSort(w), num: v})
}
func mkVar(name, sort string) *Term   { return intern(&Term{op: "var", name: name, sort: sort}) }
func mkBound(name, sort string) *Term { return intern(&Term{op: "bound", name: name, sort: sort}) }

var freshN = 0

func fresh(hint, sort string) *Term {
	freshN++
	return mkVar(fmt.Sprintf("%s!%d", sanitize(hint), freshN), sort)
}
func sanitize(s string) string {
	var b strings.Builder
	for _, c := range s {
		if c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_' || c == '.' {
			b.WriteRune(c)
		} else {
			b.WriteByte('_')
		}
	}
	if b.Len() == 0 {
		return "v"
	}
	return b.String()
}

func isConst(t *Term) bool { return t.op == "const" }

func mkApp(name, sort string, args ...*Term) *Term {
	return intern(&Term{op: "app", name: name, sort: sort, args: args})
}
func raw(op, sort string, args ...*Term) *Term {
	return intern(&Term{op: op, sort: sort, args: args})
}

// ---- booleans
func mkNot(a *Term) *Term {
	switch a.op {
	case "true":
		return tFalse
	case "false":
		return tTrue
	case "not":
		return a.args[0]
	}
	return raw("not", sBool, a)
}
func mkAnd(as ...*Term) *Term {
	var fl []*Term
	seen := map[*Term]bool{}
	var add func(t *Term) bool
	add = func(t *Term) bool {
		if t == tTrue || seen[t] {
			return true
		}
		if t == tFalse {
			return false
		}
		if t.op == "and" {
			for _, x := range t.args {
				if !add(x) {
					return false
				}
			}
			return true
		}
		if seen[mkNot(t)] {
			return false
		}
		seen[t] = true
		fl = append(fl, t)
		return true
	}
	for _, a := range as {
		if !add(a) {
			return tFalse
		}
	}
	switch len(fl) {
	case 0:
		return tTrue
	case 1:
		return fl[0]
	}
	return raw("and", sBool, fl...)
}
func mkOr(as ...*Term) *Term {
	var fl []*Term
	seen := map[*Term]bool{}
	var add func(t *Term) bool
	add = func(t *Term) bool {
		if t == tFalse || seen[t] {
			return true
		}
		if t == tTrue {
			return false
		}
		if t.op == "or" {
			for _, x := range t.args {
				if !add(x) {
					return false
				}
			}
			return true
		}
		if seen[mkNot(t)] {
			return false
		}
		seen[t] = true
		fl = append(fl, t)
		return true
	}
	for _, a := range as {
		if !add(a) {
			return tTrue
		}
	}
	switch len(fl) {
	case 0:
		return tFalse
	case 1:
		return fl[0]
	}
	// (a and b) or (a and not b) = a
	if len(fl) == 2 {
		if r := orFactor(fl[0], fl[1]); r != nil {
			return r
		}
	}
	return raw("or", sBool, fl...)
}
func conj(t *Term) []*Term {
	if t.op == "and" {
		return t.args
	}
	return []*Term{t}
}
func orFactor(a, b *Term) *Term {
	ca, cb := conj(a), conj(b)
	inB := map[*Term]bool{}
	for _, x := range cb {
		inB[x] = true
	}
	var common, ra, rb []*Term
	inA := map[*Term]bool{}
	for _, x := range ca {
		inA[x] = true
		if inB[x] {
			common = append(common, x)
		} else {
			ra = append(ra, x)
		}
	}
	for _, x := range cb {
		if !inA[x] {
			rb = append(rb, x)
		}
	}
	if len(common) == 0 {
		return nil
	}
	if len(ra) == 0 || len(rb) == 0 {
		return mkAnd(common...)
	}
	rest := mkOr(mkAnd(ra...), mkAnd(rb...))
	return mkAnd(append(append([]*Term{}, common...), rest)...)
}
func mkImp(a, b *Term) *Term {
	if a == tTrue {
		return b
	}
	if a == tFalse || b == tTrue {
		return tTrue
	}
	if b == tFalse {
		return mkNot(a)
	}
	if a == b {
		return tTrue
	}
	if b.op == "=>" {
		return mkImp(mkAnd(a, b.args[0]), b.args[1])
	}
	return raw("=>", sBool, a, b)
}
func mkIte(c, a, b *Term) *Term {
	if a == b || c == tTrue {
		return a
	}
	if c == tFalse {
		return b
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("ite sort mismatch %s %s", a.sort, b.sort))
	}
	if a.sort == sBool {
		if a == tTrue && b == tFalse {
			return c
		}
		if a == tFalse && b == tTrue {
			return mkNot(c)
		}
		if a == tTrue {
			return mkOr(c, b)
		}
		if b == tFalse {
			return mkAnd(c, a)
		}
		if a == tFalse {
			return mkAnd(mkNot(c), b)
		}
		if b == tTrue {
			return mkOr(mkNot(c), a)
		}
	}
	if c.op == "not" {
		return mkIte(c.args[0], b, a)
	}
	if a.op == "ite" && a.args[0] == c {
		a = a.args[1]
	}
	if b.op == "ite" && b.args[0] == c {
		b = b.args[2]
	}
	if a == b {
		return a
	}
	return raw("ite", a.sort, c, a, b)
}
func mkEq(a, b *Term) *Term {
	if a == b {
		return tTrue
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("eq sort mismatch %s %s: %s = %s", a.sort, b.sort, a, b))
	}
	if isConst(a) && isConst(b) {
		return tFalse // hash-consed: different constants
	}
	if a.sort == sInt {
		d := mkSub(a, b)
		if isConst(d) {
			return mkBool(d.num.Sign() == 0)
		}
		if knownDistinct(a, b) {
			return tFalse
		}
	}
	if a.sort == sBool {
		if a == tTrue {
			return b
		}
		if b == tTrue {
			return a
		}
		if a == tFalse {
			return mkNot(b)
		}
		if b == tFalse {
			return mkNot(a)
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return raw("=", sBool, a, b)
}

// ---- integers (linear normal form)
type linform struct {
	c map[*Term]*big.Int
	k *big.Int
}

func toLin(t *Term) linform {
	l := linform{map[*Term]*big.Int{}, new(big.Int)}
	l.add(t, big.NewInt(1))
	return l
}
func (l *linform) add(t *Term, m *big.Int) {
	switch t.op {
	case "const":
		l.k.Add(l.k, new(big.Int).Mul(t.num, m))
	case "lin":
		l.k.Add(l.k, new(big.Int).Mul(t.num, m))
		for i, a := range t.args {
			l.addAtom(a, new(big.Int).Mul(t.coef[i], m))
		}
	default:
		l.addAtom(t, m)
	}
}
func (l *linform) addAtom(t *Term, m *big.Int) {
	if x, ok := l.c[t]; ok {
		s := new(big.Int).Add(x, m)
		if s.Sign() == 0 {
			delete(l.c, t)
		} else {
			l.c[t] = s
		}
		return
	}
	if m.Sign() != 0 {
		l.c[t] = new(big.Int).Set(m)
	}
}
func (l linform) term() *Term {
	if len(l.c) == 0 {
		return mkBig(l.k)
	}
	var as []*Term
	for a := range l.c {
		as = append(as, a)
	}
	sort.Slice(as, func(i, j int) bool { return as[i].id < as[j].id })
	if len(as) == 1 && l.k.Sign() == 0 && l.c[as[0]].Cmp(big.NewInt(1)) == 0 {
		return as[0]
	}
	var cs []*big.Int
	for _, a := range as {
		cs = append(cs, l.c[a])
	}
	return intern(&Term{op: "lin", sort: sInt, args: as, coef: cs, num: l.k})
}
func mkAdd(a, b *Term) *Term {
	if isBV(a.sort) {
		if isConst(a) && isConst(b) {
			return mkBV(new(big.Int).Add(a.num, b.num), bvWidth(a.sort))
		}
		if isConst(b) && b.num.Sign() == 0 {
			return a
		}
		if isConst(a) && a.num.Sign() == 0 {
			return b
		}
		// normalise (x + c1) + c2
		if isConst(a) {
			a, b = b, a
		}
		if isConst(b) && a.op == "bvadd" && isConst(a.args[1]) {
			return mkAdd(a.args[0], mkBV(new(big.Int).Add(a.args[1].num, b.num), bvWidth(a.sort)))
		}
		return raw("bvadd", a.sort, a, b)
	}
	l := toLin(a)
	l.add(b, big.NewInt(1))
	return l.term()
}
func mkSub(a, b *Term) *Term {
	if isBV(a.sort) {
		if isConst(b) {
			return mkAdd(a, mkBV(new(big.Int).Neg(b.num), bvWidth(a.sort)))
		}
		if a == b {
			return mkBV(new(big.Int), bvWidth(a.sort))
		}
		return raw("bvsub", a.sort, a, b)
	}
	l := toLin(a)
	l.add(b, big.NewInt(-1))
	return l.term()
}
func mkNeg(a *Term) *Term {
	if isBV(a.sort) {
		return raw("bvneg", a.sort, a)
	}
	return mkSub(mkInt(0), a)
}

// constTree: the number of leaves of an ite tree with constant leaves (0 if it is not one)
func constTree(t *Term, max int) int {
	if t.op != "ite" || max <= 0 {
		return 0
	}
	n := 0
	for _, a := range t.args[1:] {
		if isConst(a) {
			n++
			continue
		}
		k := constTree(a, max-n)
		if k == 0 {
			return 0
		}
		n += k
	}
	if n > max {
		return 0
	}
	return n
}
func mapTree(t *Term, f func(*Term) *Term) *Term {
	if t.op != "ite" {
		return f(t)
	}
	return mkIte(t.args[0], mapTree(t.args[1], f), mapTree(t.args[2], f))
}

func mkMul(a, b *Term) *Term {
	if isBV(a.sort) {
		if isConst(a) && isConst(b) {
			return mkBV(new(big.Int).Mul(a.num, b.num), bvWidth(a.sort))
		}
		return raw("bvmul", a.sort, a, b)
	}
	if isConst(a) {
		a, b = b, a
	}
	if isConst(b) {
		if constTree(a, 8) > 0 {
			return mapTree(a, func(c *Term) *Term { return mkMul(c, b) })
		}
		l := linform{map[*Term]*big.Int{}, new(big.Int)}
		l.add(a, b.num)
		return l.term()
	}
	// a choice of constants times something stays linear
	if constTree(a, 8) > 0 {
		return mapTree(a, func(c *Term) *Term { return mkMul(b, c) })
	}
	if constTree(b, 8) > 0 {
		return mapTree(b, func(c *Term) *Term { return mkMul(a, c) })
	}
	// distribute over lin so that normal forms meet
	if a.op == "lin" || b.op == "lin" {
		if a.op != "lin" {
			a, b = b, a
		}
		l := linform{map[*Term]*big.Int{}, new(big.Int)}
		l.add(b, a.num)
		for i, x := range a.args {
			l.add(mkMul(x, b), a.coef[i])
		}
		return l.term()
	}
	// product of atoms: flatten and sort
	var fs []*Term
	for _, t := range []*Term{a, b} {
		if t.op == "*" {
			fs = append(fs, t.args...)
		} else {
			fs = append(fs, t)
		}
	}
	sort.Slice(fs, func(i, j int) bool { return fs[i].id < fs[j].id })
	return raw("*", sInt, fs...)
}

// SMT-LIB (Euclidean) division; for a non-negative dividend and positive divisor it is Go's.
func mkDivE(a, b *Term) *Term {
	if isConst(b) && b.num.Cmp(big.NewInt(1)) == 0 {
		return a
	}
	if isConst(a) && isConst(b) && b.num.Sign() != 0 {
		q := new(big.Int)
		m := new(big.Int)
		q.DivMod(a.num, b.num, m)
		return mkBig(q)
	}
	return raw("div", sInt, a, b)
}
func mkModE(a, b *Term) *Term {
	if isConst(b) && b.num.Cmp(big.NewInt(1)) == 0 {
		return mkInt(0)
	}
	if isConst(a) && isConst(b) && b.num.Sign() != 0 {
		return mkBig(new(big.Int).Mod(a.num, b.num))
	}
	if isConst(b) && b.num.Sign() > 0 && a.op == "lin" {
		// drop multiples of the modulus
		l := linform{map[*Term]*big.Int{}, new(big.Int).Mod(a.num, b.num)}
		for i, x := range a.args {
			m := new(big.Int).Mod(a.coef[i], b.num)
			l.addAtom(x, m)
		}
		n := l.term()
		if n != a {
			return mkModE(n, b)
		}
	}
	return raw("mod", sInt, a, b)
}
func mkLe(a, b *Term) *Term { // Int only
	d := mkSub(b, a)
	if isConst(d) {
		return mkBool(d.num.Sign() >= 0)
	}
	return raw("<=", sBool, a, b)
}
func mkLt(a, b *Term) *Term {
	d := mkSub(b, a)
	if isConst(d) {
		return mkBool(d.num.Sign() > 0)
	}
	return raw("<", sBool, a, b)
}

// distinctPairs and oldRefs hold unconditional facts of the function being
// verified (its precondition), used to simplify heap reads.
var distinctPairs = map[[2]*Term]bool{}
var oldRefs = map[*Term]bool{}
var allocVar = mkVar("alloc0", sInt)

func noteDistinct(a, b *Term) {
	distinctPairs[[2]*Term{a, b}] = true
	distinctPairs[[2]*Term{b, a}] = true
}

func knownDistinct(a, b *Term) bool {
	if len(distinctPairs) > 0 && distinctPairs[[2]*Term{a, b}] {
		return true
	}
	if len(oldRefs) > 0 {
		if oldRefs[b] {
			a, b = b, a
		}
		if oldRefs[a] {
			d := mkSub(b, allocVar)
			return isConst(d) && d.num.Sign() >= 0
		}
	}
	return false
}

// ---- arrays
func distinctIdx(a, b *Term) bool {
	if isConst(a) && isConst(b) {
		return a != b
	}
	if a.sort == sInt {
		d := mkSub(a, b)
		return isConst(d) && d.num.Sign() != 0 || knownDistinct(a, b)
	}
	if isBV(a.sort) {
		d := mkSub(a, b)
		if isConst(d) && d.num.Sign() != 0 {
			return true
		}
		if a.op == "bvadd" && isConst(a.args[1]) && b.op == "bvadd" && a.args[0] == b.args[0] && isConst(b.args[1]) {
			return a.args[1] != b.args[1]
		}
		if a.op == "bvadd" && isConst(a.args[1]) && a.args[0] == b && a.args[1].num.Sign() != 0 {
			return true
		}
		if b.op == "bvadd" && isConst(b.args[1]) && b.args[0] == a && b.args[1].num.Sign() != 0 {
			return true
		}
	}
	return false
}
func mkSelect(a, i *Term) *Term {
	for a.op == "store" {
		if a.args[1] == i {
			return a.args[2]
		}
		if distinctIdx(a.args[1], i) {
			a = a.args[0]
			continue
		}
		break
	}
	if a.op == "constarr" {
		return a.args[0]
	}
	if a.op == "ite" && (a.args[1].op == "store" || a.args[2].op == "store" || a.args[1].op == "constarr" || a.args[2].op == "constarr") {
		x, y := mkSelect(a.args[1], i), mkSelect(a.args[2], i)
		if x == y {
			return x
		}
	}
	return raw("select", arrElemSort(a.sort), a, i)
}
func mkStore(a, i, v *Term) *Term {
	if arrElemSort(a.sort) != v.sort {
		panic(fmt.Sprintf("store sort mismatch %s <- %s", a.sort, v.sort))
	}
	if a.op == "store" && a.args[1] == i {
		return mkStore(a.args[0], i, v)
	}
	if v.op == "select" && v.args[0] == a && v.args[1] == i {
		return a
	}
	return raw("store", a.sort, a, i, v)
}
func mkConstArr(sort string, v *Term) *Term { return raw("constarr", sort, v) }

var boundN = 0

func freshBound(hint, sort string) *Term {
	boundN++
	return mkBound(fmt.Sprintf("%s?%d", sanitize(hint), boundN), sort)
}

func mkForall(bvs []*Term, body *Term, pats ...[]*Term) *Term {
	if body == tTrue {
		return tTrue
	}
	t := &Term{op: "forall", sort: sBool, args: []*Term{body}, bvs: bvs}
	r := intern(t)
	if len(pats) > 0 && r.pats == nil {
		r.pats = pats
	}
	return r
}
func mkExists(bvs []*Term, body *Term) *Term {
	return intern(&Term{op: "exists", sort: sBool, args: []*Term{body}, bvs: bvs})
}

// ---- substitution of variables/bounds
func subst(t *Term, m map[*Term]*Term, memo map[*Term]*Term) *Term {
	if r, ok := m[t]; ok {
		return r
	}
	if len(t.args) == 0 {
		return t
	}
	if r, ok := memo[t]; ok {
		return r
	}
	args := make([]*Term, len(t.args))
	ch := false
	for i, a := range t.args {
		args[i] = subst(a, m, memo)
		if args[i] != a {
			ch = true
		}
	}
	r := t
	if ch {
		r = rebuild(t, args)
		if t.op == "forall" && r.op == "forall" && r.pats == nil && t.pats != nil {
			for _, p := range t.pats {
				var q []*Term
				for _, u := range p {
					v := subst(u, m, memo)
					if (v.op != "select" && v.op != "app") || !v.hasB || hasIte(v) {
						q = nil
						break
					}
					q = append(q, v)
				}
				if q != nil {
					r.pats = append(r.pats, q)
				}
			}
		}
	}
	memo[t] = r
	return r
}

func hasIte(t *Term) bool {
	for _, u := range collect([]*Term{t}) {
		if u.op == "ite" && u.sort == sBool {
			return true
		}
	}
	return false
}
func rebuild(t *Term, a []*Term) *Term {
	switch t.op {
	case "not":
		return mkNot(a[0])
	case "and":
		return mkAnd(a...)
	case "or":
		return mkOr(a...)
	case "=>":
		return mkImp(a[0], a[1])
	case "ite":
		return mkIte(a[0], a[1], a[2])
	case "=":
		return mkEq(a[0], a[1])
	case "lin":
		l := linform{map[*Term]*big.Int{}, new(big.Int).Set(t.num)}
		for i, x := range a {
			l.add(x, t.coef[i])
		}
		return l.term()
	case "*":
		r := a[0]
		for _, x := range a[1:] {
			r = mkMul(r, x)
		}
		return r
	case "div":
		return mkDivE(a[0], a[1])
	case "mod":
		return mkModE(a[0], a[1])
	case "<=":
		return mkLe(a[0], a[1])
	case "<":
		return mkLt(a[0], a[1])
	case "select":
		return mkSelect(a[0], a[1])
	case "store":
		return mkStore(a[0], a[1], a[2])
	}
	n := *t
	n.args = a
	n.id = 0
	n.pats = nil
	return intern(&n)
}

// ---- printing
func (t *Term) String() string {
	var sb strings.Builder
	printTerm(&sb, t, nil)
	return sb.String()
}
func smtName(s string) string { return "|" + s + "|" }

func printConst(sb *strings.Builder, t *Term) {
	if isBV(t.sort) {
		fmt.Fprintf(sb, "(_ bv%s %d)", t.num, bvWidth(t.sort))
		return
	}
	if t.num.Sign() < 0 {
		fmt.Fprintf(sb, "(- %s)", new(big.Int).Neg(t.num))
		return
	}
	sb.WriteString(t.num.String())
}

func printTerm(sb *strings.Builder, t *Term, defs map[*Term]string) {
	if defs != nil {
		if n, ok := defs[t]; ok {
			sb.WriteString(n)
			return
		}
	}
	printNode(sb, t, defs)
}
func printNode(sb *strings.Builder, t *Term, defs map[*Term]string) {
	switch t.op {
	case "true", "false":
		sb.WriteString(t.op)
	case "const":
		printConst(sb, t)
	case "var", "bound":
		sb.WriteString(smtName(t.name))
	case "app":
		if len(t.args) == 0 {
			sb.WriteString(smtName(t.name))
			return
		}
		sb.WriteByte('(')
		sb.WriteString(smtName(t.name))
		for _, a := range t.args {
			sb.WriteByte(' ')
			printTerm(sb, a, defs)
		}
		sb.WriteByte(')')
	case "constarr":
		sb.WriteString("((as const " + t.sort + ") ")
		printTerm(sb, t.args[0], defs)
		sb.WriteByte(')')
	case "lin":
		n := len(t.args)
		if t.num.Sign() != 0 {
			n++
		}
		if n > 1 {
			sb.WriteString("(+")
		}
		for i, a := range t.args {
			if n > 1 {
				sb.WriteByte(' ')
			}
			if t.coef[i].Cmp(big.NewInt(1)) == 0 {
				printTerm(sb, a, defs)
			} else {
				sb.WriteString("(* ")
				printConst(sb, mkBig(t.coef[i]))
				sb.WriteByte(' ')
				printTerm(sb, a, defs)
				sb.WriteByte(')')
			}
		}
		if t.num.Sign() != 0 {
			sb.WriteByte(' ')
			printConst(sb, mkBig(t.num))
		}
		if n > 1 {
			sb.WriteByte(')')
		}
	case "forall", "exists":
		sb.WriteString("(" + t.op + " (")
		for _, b := range t.bvs {
			fmt.Fprintf(sb, "(%s %s)", smtName(b.name), b.sort)
		}
		sb.WriteString(") ")
		if len(t.pats) > 0 {
			sb.WriteString("(! ")
		}
		printTerm(sb, t.args[0], defs)
		if len(t.pats) > 0 {
			for _, p := range t.pats {
				sb.WriteString(" :pattern (")
				for i, x := range p {
					if i > 0 {
						sb.WriteByte(' ')
					}
					printTerm(sb, x, defs)
				}
				sb.WriteString(")")
			}
			sb.WriteString(")")
		}
		sb.WriteByte(')')
	default:
		sb.WriteByte('(')
		sb.WriteString(t.op)
		for _, a := range t.args {
			sb.WriteByte(' ')
			printTerm(sb, a, defs)
		}
		sb.WriteByte(')')
	}
}

// collect gathers reachable terms in dependency order.
func collect(roots []*Term) []*Term {
	seen := map[*Term]bool{}
	var out []*Term
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		for _, a := range t.args {
			rec(a)
		}
		for _, p := range t.pats {
			for _, x := range p {
				rec(x)
			}
		}
		out = append(out, t)
	}
	for _, r := range roots {
		rec(r)
	}
	return out
}
