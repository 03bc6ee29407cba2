package netcdf/cdf

def up4(n) = 4 * ((n + 3) / 4)
def pfx(v int) = ite(v < 5, 4, 8)

func (c *countedWriter) Write(p)
  prop C02 C01
  requires c.w != nil && c.count == outlen(c.w)
  requires c.count + len(p) < 1<<62
  modifies c.count, out(c.w)
  ensures 0 <= result0 && result0 <= len(p)
  ensures result1 == nil ==> result0 == len(p)
  ensures c.count == old(c.count) + result0 && c.count == outlen(c.w)
  ensures all(i, 0, old(outlen(c.w)), outat(c.w, i) == old(outat(c.w, i)))
  ensures all(i, 0, result0, outat(c.w, old(outlen(c.w)) + i) == p[i])

func (c *countedWriter) Count()
  prop C02
  ensures result == c.count

func roundInt64(i)
  prop C02
  requires 0 <= i && i < 1<<62
  ensures result == up4(i)

func roundInt32(i)
  prop C02 C03 C04
  requires i < 1<<63
  ensures result == up4(i)

func (cw *CDFWriter) pad()
  prop C02 C01
  requires cw.bf != nil && cw.bf.w != nil && cw.bf.count == outlen(cw.bf.w) && cw.bf.count < 1<<61
  modifies cw.bf.count, out(cw.bf.w)
  throws
  ensures cw.bf.count == outlen(cw.bf.w)
  ensures outlen(cw.bf.w) == up4(old(outlen(cw.bf.w)))
  ensures all(i, 0, old(outlen(cw.bf.w)), outat(cw.bf.w, i) == old(outat(cw.bf.w, i)))
  ensures all(i, old(outlen(cw.bf.w)), outlen(cw.bf.w), outat(cw.bf.w, i) == 0)

func (cw *CDFWriter) writeNumber(n)
  prop C02 C01
  requires cw.bf != nil && cw.bf.w != nil && cw.bf.count == outlen(cw.bf.w) && cw.bf.count < 1<<61
  requires 0 <= n && (cw.version < 5 ==> n < 1<<31)
  modifies cw.bf.count, out(cw.bf.w)
  throws
  ensures cw.bf.count == outlen(cw.bf.w)
  ensures outlen(cw.bf.w) == old(outlen(cw.bf.w)) + pfx(cw.version)
  ensures all(i, 0, old(outlen(cw.bf.w)), outat(cw.bf.w, i) == old(outat(cw.bf.w, i)))
  ensures cw.version < 5 ==> be(outdat(cw.bf.w), old(outlen(cw.bf.w)), 4) == n
  ensures cw.version >= 5 ==> be(outdat(cw.bf.w), old(outlen(cw.bf.w)), 8) == n

func (cw *CDFWriter) writeName(name)
  prop C02 C01
  requires cw.bf != nil && cw.bf.w != nil && cw.bf.count == outlen(cw.bf.w) && cw.bf.count < 1<<60
  requires (cw.version < 5 ==> len(name) < 1<<31) && len(name) < 1<<59
  modifies cw.bf.count, out(cw.bf.w)
  throws
  let p = outlen(cw.bf.w)
  let q = outlen(cw.bf.w) + pfx(cw.version)
  ensures cw.bf.count == outlen(cw.bf.w)
  ensures outlen(cw.bf.w) == up4(q + len(name))
  ensures all(i, 0, p, outat(cw.bf.w, i) == old(outat(cw.bf.w, i)))
  ensures cw.version < 5 ==> be(outdat(cw.bf.w), p, 4) == len(name)
  ensures cw.version >= 5 ==> be(outdat(cw.bf.w), p, 8) == len(name)
  ensures all(i, 0, len(name), outat(cw.bf.w, q + i) == name[i])
  ensures all(i, q + len(name), outlen(cw.bf.w), outat(cw.bf.w, i) == 0)

// ---- attribute lists: an attribute map as a sequence of keys and values
fn amn(m Any) int
fn amkey(m Any, i int) string
fn amval(m Any, i int) Any

extern func (am github.com/batchatco/go-native-netcdf/netcdf/api.AttributeMap) Keys()
  note the map is not changed during the call; Get returns the value listed with a key
  ensures len(result) == amn(any(am)) && amn(any(am)) >= 0
  ensures fresh(result)
  ensures all(i, 0, len(result), result[i] == amkey(any(am), i))

extern func (am github.com/batchatco/go-native-netcdf/netcdf/api.AttributeMap) Get(key)
  pure
  ensures all(i, 0, amn(any(am)), amkey(any(am), i) == key ==> any(result0) == amval(any(am), i))

// the classic-format type code, element size, and number of elements of an attribute value
def vcode(v Any) = ite(istype(v,"string"), 2, ite(istype(v,"int8") || istype(v,"[]int8"), 1, ite(istype(v,"int16") || istype(v,"[]int16"), 3, \
  ite(istype(v,"int32") || istype(v,"[]int32"), 4, ite(istype(v,"float32") || istype(v,"[]float32"), 5, ite(istype(v,"float64") || istype(v,"[]float64"), 6, \
  ite(istype(v,"uint8") || istype(v,"[]uint8"), 7, ite(istype(v,"uint16") || istype(v,"[]uint16"), 8, ite(istype(v,"uint32") || istype(v,"[]uint32"), 9, \
  ite(istype(v,"int64") || istype(v,"[]int64"), 10, ite(istype(v,"uint64") || istype(v,"[]uint64"), 11, 0)))))))))))
def vlen(v Any) = ite(istype(v,"string"), len(unboxed(v,"string")), ite(istype(v,"[]int8"), len(unboxed(v,"[]int8")), ite(istype(v,"[]int16"), len(unboxed(v,"[]int16")), \
  ite(istype(v,"[]int32"), len(unboxed(v,"[]int32")), ite(istype(v,"[]float32"), len(unboxed(v,"[]float32")), ite(istype(v,"[]float64"), len(unboxed(v,"[]float64")), \
  ite(istype(v,"[]uint8"), len(unboxed(v,"[]uint8")), ite(istype(v,"[]uint16"), len(unboxed(v,"[]uint16")), ite(istype(v,"[]uint32"), len(unboxed(v,"[]uint32")), \
  ite(istype(v,"[]int64"), len(unboxed(v,"[]int64")), ite(istype(v,"[]uint64"), len(unboxed(v,"[]uint64")), 1)))))))))))
def csize(c int) = ite(c == 1 || c == 2 || c == 7, 1, ite(c == 3 || c == 8, 2, ite(c == 4 || c == 5 || c == 9, 4, 8)))
opaque def vbytes(v Any) = csize(vcode(v)) * vlen(v)
// bytes of the first i attributes
opaque def asz(ver int, m Any, i int) = ite(i <= 0, 0, asz(ver, m, i-1) + pfx(ver) + up4(len(amkey(m, i-1))) + 4 + pfx(ver) + up4(vbytes(amval(m, i-1))))

lemma asz_mono(ver int, m Any, i int, n int)
  prop C02
  requires 0 <= i && i <= n
  requires all(j, 0, n, vbytes(amval(m, j)) >= 0)
  induct n from i
  use asz(ver, m, n)
  ensures asz(ver, m, i) <= asz(ver, m, n)

lemma asz_pos(ver int, m Any, n int)
  prop C02
  requires 0 <= n
  requires all(j, 0, n, vbytes(amval(m, j)) >= 0)
  induct n
  use asz(ver, m, n)
  ensures 0 <= asz(ver, m, n)

lemma asz_mod(ver int, m Any, n int)
  prop C02
  requires 0 <= n
  induct n
  use asz(ver, m, n)
  ensures mod(asz(ver, m, n), 4) == 0

func (cw *CDFWriter) computeAttributeSize(attrs)
  prop C02
  throws
  requires all(j, 0, amn(any(attrs)), vbytes(amval(any(attrs), j)) >= 0)
  requires cw.version == 2 || cw.version == 5
  requires asz(cw.version, any(attrs), amn(any(attrs))) < 1<<58
  ensures result == alist(cw.version, any(attrs), attrs == nil)
  loop 0: invariant count == 4 + pfx(cw.version) + asz(cw.version, any(attrs), iter)
  use asz(cw.version, any(attrs), 0)
  loop 0: use asz(cw.version, any(attrs), iter+1)
  loop 0: use vbytes(amval(any(attrs), iter))
  loop 0: use asz_mod(cw.version, any(attrs), iter)
  loop 0: use asz_pos(cw.version, any(attrs), iter)
  loop 0: use asz_mono(cw.version, any(attrs), iter+1, amn(any(attrs)))

func (cw *CDFWriter) computeVarSize(saved)
  prop C02
  throws
  requires saved != nil
  requires cw.version == 2 || cw.version == 5
  requires all(j, 0, amn(any(saved.attrs)), vbytes(amval(any(saved.attrs), j)) >= 0)
  requires asz(cw.version, any(saved.attrs), amn(any(saved.attrs))) < 1<<58 && len(saved.name) < 1<<59 && len(saved.dimLengths) < 1<<50
  ensures result == vhdr(cw.version, len(saved.name), len(saved.dimLengths), any(saved.attrs), saved.attrs == nil)

// bytes of a variable's entry in the header
def alist(ver int, m Any, none bool) = 4 + pfx(ver) + ite(none, 0, asz(ver, m, amn(m)))
def vhdr(ver int, nl int, nd int, m Any, none bool) = pfx(ver) + up4(nl) + pfx(ver) + pfx(ver)*nd + alist(ver, m, none) + 4 + pfx(ver) + 8

// where the entry of attribute j starts, for a list that starts at p
def apos(ver int, m Any, p int, j int) = p + 4 + pfx(ver) + asz(ver, m, j)

// a count in the header: 4 bytes, or 8 in version 5
def num(d Bytes, q int, ver int) = ite(ver < 5, be(d, q, 4), be(d, q, 8))
// where the type code of attribute j is
def tpos(ver int, m Any, p int, j int) = apos(ver, m, p, j) + pfx(ver) + up4(len(amkey(m, j)))

func (cw *CDFWriter) writeAttributes(attrs)
  split cw.version < 5
  timeout 20
  prop C02
  throws
  requires cw.bf != nil && cw.bf.w != nil && cw.bf.count == outlen(cw.bf.w) && cw.bf.count < 1<<58
  requires cw.version == 2 || cw.version == 5
  requires mod(outlen(cw.bf.w), 4) == 0
  requires all(j, 0, amn(any(attrs)), vbytes(amval(any(attrs), j)) >= 0)
  requires asz(cw.version, any(attrs), amn(any(attrs))) < ite(cw.version < 5, 1<<31, 1<<58)
  requires amn(any(attrs)) < 1<<31
  modifies cw.bf.count, out(cw.bf.w)
  let p = outlen(cw.bf.w)
  let m = any(attrs)
  let ver = cw.version
  let none = attrs == nil || amn(any(attrs)) == 0
  ensures cw.bf.count == outlen(cw.bf.w)
  ensures outlen(cw.bf.w) == old(outlen(cw.bf.w)) + alist(ver, m, attrs == nil)
  ensures all(i, 0, old(outlen(cw.bf.w)), outat(cw.bf.w, i) == old(outat(cw.bf.w, i)))
  ensures be(outdat(cw.bf.w), p, 4) == ite(none, 0, 12) && num(outdat(cw.bf.w), p + 4, ver) == ite(attrs == nil, 0, amn(m))
  ensures attrs != nil ==> all(j, 0, amn(m), aent(outdat(cw.bf.w), ver, apos(ver, m, p, j), m, j))
  use asz(ver, m, 0)
  loop 0: use asz(ver, m, iter+1)
  loop 0: use vbytes(amval(m, iter))
  loop 0: use asz_mod(ver, m, iter)
  loop 0: use asz_pos(ver, m, iter)
  loop 0: use asz_mono(ver, m, iter+1, amn(m))
  loop 0: invariant cw.bf.count == outlen(cw.bf.w) && mod(outlen(cw.bf.w), 4) == 0
  loop 0: invariant outlen(cw.bf.w) == apos(ver, m, p, iter)
  loop 0: step all(i, 0, prev(outlen(cw.bf.w)), outat(cw.bf.w, i) == prev(outat(cw.bf.w, i)))
  loop 0: invariant all(i, 0, p, outat(cw.bf.w, i) == old(outat(cw.bf.w, i)))
  loop 0: invariant be(outdat(cw.bf.w), p, 4) == 12 && num(outdat(cw.bf.w), p + 4, ver) == amn(m)
  loop 0: stepuse all(j, 0, iter-1, asz_mono(ver, m, j+1, iter-1))
  loop 0: stepuse all(j, 0, iter-1, aent_ext(prev(outdat(cw.bf.w)), outdat(cw.bf.w), ver, p, m, j, iter-1))
  loop 0: step num(outdat(cw.bf.w), apos(ver, m, p, iter-1), ver) == len(amkey(m, iter-1))
  loop 0: step be(outdat(cw.bf.w), tpos(ver, m, p, iter-1), 4) == vcode(amval(m, iter-1))
  loop 0: step num(outdat(cw.bf.w), tpos(ver, m, p, iter-1) + 4, ver) == vlen(amval(m, iter-1))
  loop 0: stepuse aent(outdat(cw.bf.w), ver, apos(ver, m, p, iter-1), m, iter-1)
  loop 0: invariant all(j, 0, iter, aent(outdat(cw.bf.w), ver, apos(ver, m, p, j), m, j))

// the entry of attribute j of m is in the bytes d from position q: name, type, number of elements
opaque def aent(d Bytes, ver int, q int, m Any, j int) bool = num(d, q, ver) == len(amkey(m, j)) && \
  be(d, q + pfx(ver) + up4(len(amkey(m, j))), 4) == vcode(amval(m, j)) && \
  num(d, q + pfx(ver) + up4(len(amkey(m, j))) + 4, ver) == vlen(amval(m, j))

lemma aent_ext(d Bytes, e Bytes, ver int, p int, m Any, j int, n int)
  prop C02
  requires (ver == 2 || ver == 5) && p >= 0 && 0 <= j && j < n
  requires all(i, 0, n, vbytes(amval(m, i)) >= 0)
  requires all(i, 0, apos(ver, m, p, n), e[i] == d[i])
  requires aent(d, ver, apos(ver, m, p, j), m, j)
  use aent(d, ver, apos(ver, m, p, j), m, j)
  use aent(e, ver, apos(ver, m, p, j), m, j)
  use asz_pos(ver, m, j)
  use asz(ver, m, j+1)
  use asz_mono(ver, m, j+1, n)
  ensures aent(e, ver, apos(ver, m, p, j), m, j)


// ---- variables
def esz(ty) = ite(ty == 6 || ty == 10 || ty == 11, 8, ite(ty == 4 || ty == 5 || ty == 9, 4, ite(ty == 3 || ty == 8, 2, 1)))
// element size times the first i lengths (0 stands for the unlimited dimension)
opaque def vprod(w int, a Bytes, o int, i int) = ite(i <= 0, w, vprod(w, a, o, i-1) * ite(a[o+i-1] == 0, 1, a[o+i-1]))

lemma vprod_mono(w int, a Bytes, o int, i int, n int)
  prop C02
  requires 0 <= i && i <= n && w >= 0 && all(j, 0, n, a[o+j] >= 0)
  induct n from i
  use vprod(w, a, o, n)
  use vprod_pos(w, a, o, n-1)
  use vprod_pos(w, a, o, n)
  ensures vprod(w, a, o, i) <= vprod(w, a, o, n)

lemma vprod_pos(w int, a Bytes, o int, n int)
  prop C02
  requires 0 <= n && w >= 0 && all(j, 0, n, a[o+j] >= 0)
  induct n
  use vprod(w, a, o, n)
  use vprod(w, a, o, 0)
  ensures 0 <= vprod(w, a, o, n)

func (saved *savedVar) isRecord()
  prop C02
  requires saved != nil
  ensures result == (len(saved.dimLengths) > 0 && saved.dimLengths[0] == 0)

func (saved *savedVar) paddedSize()
  prop C02
  throws
  requires saved != nil && len(saved.dimNames) == len(saved.dimLengths) && all(i, 0, len(saved.dimLengths), saved.dimLengths[i] >= 0)
  requires vprod(esz(saved.ty), arr(saved.dimLengths), off(saved.dimLengths), len(saved.dimLengths)) < 1<<58
  ensures result == up4(vprod(esz(saved.ty), arr(saved.dimLengths), off(saved.dimLengths), len(saved.dimLengths)))
  use vprod(esz(saved.ty), arr(saved.dimLengths), off(saved.dimLengths), 0)
  use vprod_pos(esz(saved.ty), arr(saved.dimLengths), off(saved.dimLengths), len(saved.dimLengths))
  loop 0: invariant vsize == vprod(esz(saved.ty), arr(saved.dimLengths), off(saved.dimLengths), iter)
  loop 0: use vprod(esz(saved.ty), arr(saved.dimLengths), off(saved.dimLengths), iter+1)
  loop 0: use vprod_mono(esz(saved.ty), arr(saved.dimLengths), off(saved.dimLengths), iter+1, len(saved.dimLengths))
  loop 0: use vprod_pos(esz(saved.ty), arr(saved.dimLengths), off(saved.dimLengths), iter)

def v5(c int) = c == 7 || c == 8 || c == 9 || c == 10 || c == 11

func (cw *CDFWriter) checkV5Attributes(attrs)
  prop C02 A03
  throws
  modifies cw.version
  ensures attrs == nil ==> cw.version == old(cw.version)
  ensures attrs != nil ==> all(j, 0, amn(any(attrs)), vcode(amval(any(attrs), j)) != 0)
  ensures attrs != nil ==> cw.version == ite(ex(j, 0, amn(any(attrs)), v5(vcode(amval(any(attrs), j)))), 5, old(cw.version))
  loop 0: invariant all(j, 0, iter, vcode(amval(any(attrs), j)) != 0)
  loop 0: invariant cw.version == ite(ex(j, 0, iter, v5(vcode(amval(any(attrs), j)))), 5, old(cw.version))

// what a variable needs for its header entry: consistent names and lengths, sizes that fit
pred varok(s, ver) = s.ty < 1<<31 && len(s.dimNames) == len(s.dimLengths) && len(s.dimLengths) < 1<<20 && all(d, 0, len(s.dimLengths), s.dimLengths[d] >= 0) && \
  vprod(esz(s.ty), arr(s.dimLengths), off(s.dimLengths), len(s.dimLengths)) < ite(ver < 5, (1<<31) - 4, 1<<58) && len(s.name) < 1<<30 && \
  all(j, 0, amn(any(s.attrs)), vbytes(amval(any(s.attrs), j)) >= 0) && amn(any(s.attrs)) < 1<<31 && \
  asz(ver, any(s.attrs), amn(any(s.attrs))) < ite(ver < 5, 1<<31, 1<<57)
pred vhsize(s, ver) = vhdr(ver, len(s.name), len(s.dimLengths), any(s.attrs), s.attrs == nil)
pred vpadded(s) = up4(vprod(esz(s.ty), arr(s.dimLengths), off(s.dimLengths), len(s.dimLengths)))
pred vrec(s) = len(s.dimLengths) > 0 && s.dimLengths[0] == 0

// names for the padded size of variable i, and for whether it is a record variable
fn psz(i int) int
fn rec(i int) bool
// data sizes before variable w: the record variables come after all others
opaque def vbefore(w int, i int) = ite(i <= 0, 0, vbefore(w, i-1) + ite(rec(i-1) == rec(w), ite(i-1 < w, psz(i-1), 0), ite(rec(w), psz(i-1), 0)))

lemma vbefore_pos(w int, n int)
  prop C02
  requires 0 <= n && all(i, 0, n, psz(i) >= 0)
  induct n
  use vbefore(w, n)
  ensures 0 <= vbefore(w, n)

lemma vbefore_mono(w int, i int, n int)
  prop C02
  requires 0 <= i && i <= n && all(j, 0, n, psz(j) >= 0)
  induct n from i
  use vbefore(w, n)
  ensures vbefore(w, i) <= vbefore(w, n)

func (cw *CDFWriter) writeVar(which)
  split cw.version < 5
  timeout 20
  prop C02
  throws
  requires cw.bf != nil && cw.bf.w != nil && cw.bf.count == outlen(cw.bf.w) && cw.bf.count < 1<<57
  requires cw.version == 2 || cw.version == 5
  requires mod(outlen(cw.bf.w), 4) == 0
  requires 0 <= which && which < len(cw.vars) && len(cw.vars) < 1<<31 && cw.vars[which].ty < 1<<31
  requires all(i, 0, len(cw.vars), varok(cw.vars[i], cw.version))
  requires all(i, 0, len(cw.vars), psz(i) == vpadded(cw.vars[i]) && rec(i) == vrec(cw.vars[i]))
  requires all(i, 0, len(cw.vars), psz(i) >= 0)
  requires vbefore(which, len(cw.vars)) < 1<<60 && 0 <= cw.begin && cw.begin < 1<<60
  requires all(d, 0, len(cw.vars[which].dimNames), 0 <= cw.dimIds[cw.vars[which].dimNames[d]] && cw.dimIds[cw.vars[which].dimNames[d]] < 1<<31)
  modifies cw.bf.count, out(cw.bf.w)
  let p = outlen(cw.bf.w)
  let ver = cw.version
  let s = cw.vars[which]
  let q = p + pfx(ver) + up4(len(cw.vars[which].name))
  ensures cw.bf.count == outlen(cw.bf.w)
  ensures outlen(cw.bf.w) == p + vhsize(cw.vars[which], ver)
  ensures all(i, 0, p, outat(cw.bf.w, i) == old(outat(cw.bf.w, i)))
  ensures num(outdat(cw.bf.w), p, ver) == len(cw.vars[which].name)
  ensures num(outdat(cw.bf.w), q, ver) == len(cw.vars[which].dimLengths)
  ensures num(outdat(cw.bf.w), outlen(cw.bf.w) - 8 - pfx(ver), ver) == psz(which)
  ensures be(outdat(cw.bf.w), outlen(cw.bf.w) - 8, 8) == cw.begin + vbefore(which, len(cw.vars))
  loop 0: invariant cw.bf.count == outlen(cw.bf.w)
  loop 0: invariant outlen(cw.bf.w) == q + pfx(ver) * (iter + 1)
  loop 0: invariant mod(outlen(cw.bf.w), 4) == 0
  loop 0: invariant all(i, 0, p, outat(cw.bf.w, i) == old(outat(cw.bf.w, i)))
  loop 0: invariant num(outdat(cw.bf.w), p, ver) == len(cw.vars[which].name)
  loop 0: invariant num(outdat(cw.bf.w), q, ver) == len(cw.vars[which].dimLengths)
  loop 1: use asz_pos(ver, any(cw.vars[which].attrs), amn(any(cw.vars[which].attrs)))
  loop 1: invariant outlen(cw.bf.w) == p + vhsize(cw.vars[which], ver) - 8
  loop 1: invariant outlen(cw.bf.w) >= q + pfx(ver)
  loop 1: invariant all(i, 0, p, outat(cw.bf.w, i) == old(outat(cw.bf.w, i)))
  loop 1: invariant num(outdat(cw.bf.w), p, ver) == len(cw.vars[which].name)
  loop 1: invariant num(outdat(cw.bf.w), q, ver) == len(cw.vars[which].dimLengths)
  loop 1: invariant num(outdat(cw.bf.w), outlen(cw.bf.w) - pfx(ver), ver) == psz(which)
  loop 1: invariant calcOffset == cw.begin + vbefore(which, iter) && cw.begin <= calcOffset && calcOffset < 1<<62
  loop 1: use vbefore(which, iter+1)
  loop 1: use vbefore(which, 0)
  loop 1: use vbefore_pos(which, iter)
  loop 1: use vbefore_mono(which, iter+1, len(cw.vars))
