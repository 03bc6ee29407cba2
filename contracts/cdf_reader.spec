package netcdf/cdf

// ---- the header fields as the reader takes them from the stream in(bf)
def sx32(n) = ite(n >= 1<<31, n + (1<<64) - (1<<32), n)
def rnum(d Bytes, q int, ver int) = ite(ver < 5, sx32(be(d, q, 4)), be(d, q, 8))

func (cdf *CDF) readNumber(bf)
  prop C04 C01
  throws
  modifies in(bf)
  ensures inpos(bf) == old(inpos(bf)) + pfx(cdf.version)
  ensures result == rnum(indat(bf), old(inpos(bf)), cdf.version)

func readBytes(r, nBytes)
  prop C04 C01
  throws
  requires nBytes < 1<<40
  modifies in(r)
  ensures len(result) == nBytes && inpos(r) == old(inpos(r)) + nBytes
  ensures all(i, 0, nBytes, result[i] == inat(r, old(inpos(r)) + i))

func read8(r)
  prop C04 C01
  throws
  modifies in(r)
  ensures inpos(r) == old(inpos(r)) + 1 && result == inat(r, old(inpos(r)))

func read16(r)
  prop C04 C01
  throws
  modifies in(r)
  ensures inpos(r) == old(inpos(r)) + 2 && result == be(indat(r), old(inpos(r)), 2)

func read32(r)
  prop C04 C01
  throws
  modifies in(r)
  ensures inpos(r) == old(inpos(r)) + 4 && result == be(indat(r), old(inpos(r)), 4)

func read64(r)
  prop C04 C01
  throws
  modifies in(r)
  ensures inpos(r) == old(inpos(r)) + 8 && result == be(indat(r), old(inpos(r)), 8)

func (cdf *CDF) getNElems(bf, expectedField)
  prop C04 C01
  throws
  modifies in(bf)
  let p = inpos(bf)
  ensures inpos(bf) == p + 4 + pfx(cdf.version)
  ensures result == rnum(indat(bf), p + 4, cdf.version)
  ensures be(indat(bf), p, 4) == expectedField || be(indat(bf), p, 4) == 0 && result == 0

func (cdf *CDF) readName(bf)
  prop C04 C01
  throws
  requires rnum(indat(bf), inpos(bf), cdf.version) < 1<<30
  modifies in(bf)
  let p = inpos(bf)
  let n = rnum(indat(bf), inpos(bf), cdf.version)
  ensures inpos(bf) == p + pfx(cdf.version) + up4(n)
  ensures len(result) <= n
  ensures all(i, 0, len(result), result[i] == inat(bf, p + pfx(cdf.version) + i))
  ensures all(i, 0, len(result), result[i] != 0)
  ensures len(result) < n ==> inat(bf, p + pfx(cdf.version) + len(result)) == 0
  loop 0: invariant 0 <= i && i <= nameLen && nameLen == n
  loop 0: invariant all(k, 0, i, b[k] != 0)

func (cdf *CDF) getDim(bf)
  prop C04 C01
  throws
  requires rnum(indat(bf), inpos(bf), cdf.version) < 1<<30
  modifies in(bf)
  let p = inpos(bf)
  let n = rnum(indat(bf), inpos(bf), cdf.version)
  let q = p + pfx(cdf.version) + up4(n)
  ensures inpos(bf) == q + pfx(cdf.version)
  ensures result.dimLength == rnum(indat(bf), q, cdf.version)
  ensures len(result.name) <= n
  ensures all(i, 0, len(result.name), result.name[i] == inat(bf, p + pfx(cdf.version) + i))

func (cdf *CDF) hasUnlimitedDimension(ids)
  prop C04 C03
  panics
  ensures result <==> len(ids) > 0 && cdf.dimensions[ids[0]].dimLength == 0

// ---- the public views of the header
func (cdf *CDF) GetDimension(name)
  prop A02
  ensures all(i, 0, len(cdf.dimensions), cdf.dimensions[i].name == name && all(j, 0, i, cdf.dimensions[j].name != name) ==> result1 && result0 == cdf.dimensions[i].dimLength)
  ensures !result1 ==> result0 == 0 && all(i, 0, len(cdf.dimensions), cdf.dimensions[i].name != name)
  loop 0: invariant all(j, 0, iter, cdf.dimensions[j].name != name)

func (cdf *CDF) ListDimensions()
  prop A02
  ensures len(result) == len(cdf.dimensions)
  ensures all(i, 0, len(result), result[i] == cdf.dimensions[i].name)
  loop 0: invariant len(ret) == iter
  loop 0: invariant all(i, 0, iter, ret[i] == cdf.dimensions[i].name)

func goType(vType)
  prop A02 C04
  throws when vType < 1 || vType > 11
  ensures 1 <= vType && vType <= 11
  ensures result == ite(vType == 1, "int8", ite(vType == 2, "string", ite(vType == 3, "int16", ite(vType == 4, "int32", ite(vType == 5, "float32", ite(vType == 6, "float64", ite(vType == 7, "uint8", ite(vType == 8, "uint16", ite(vType == 9, "uint32", ite(vType == 10, "int64", "uint64"))))))))))

func cdlType(vType)
  prop A02 C04
  throws when vType < 1 || vType > 11
  ensures 1 <= vType && vType <= 11
  ensures result == ite(vType == 1, "byte", ite(vType == 2, "char", ite(vType == 3, "short", ite(vType == 4, "int", ite(vType == 5, "float", ite(vType == 6, "double", ite(vType == 7, "ubyte", ite(vType == 8, "ushort", ite(vType == 9, "uint", ite(vType == 10, "int64", "uint64"))))))))))

// ---- handles
func (cdf *CDF) GetGroup(group)
  prop A04
  requires cdf.fileRefCount < 1<<62
  modifies cdf.fileRefCount
  ensures group != "" && group != "/" ==> result1 != nil && cdf.fileRefCount == old(cdf.fileRefCount)
  ensures group == "" || group == "/" ==> result1 == nil && cdf.fileRefCount == old(cdf.fileRefCount) + 1

func (cdf *CDF) Close()
  prop A04
  modifies cdf.fileRefCount, cdf.file
  requires cdf.fileRefCount > 0 ==> cdf.file != nil
  ensures old(cdf.fileRefCount) > 0 ==> cdf.fileRefCount == old(cdf.fileRefCount) - 1
  ensures old(cdf.fileRefCount) <= 0 ==> cdf.fileRefCount == old(cdf.fileRefCount) && cdf.file == old(cdf.file)
  ensures cdf.fileRefCount > 0 ==> cdf.file == old(cdf.file)
  ensures old(cdf.fileRefCount) == 1 ==> cdf.file == nil

// ---- fill values
func makeFillValueShort(s)
  prop C05
  throws
  ensures len(result) == 2 && be(arr(result), off(result), 2) == mod(s, 1<<16)

func makeFillValueInt(i)
  prop C05
  throws
  ensures len(result) == 4 && be(arr(result), off(result), 4) == mod(i, 1<<32)

func makeFillValueInt64(i64)
  prop C05
  throws
  ensures len(result) == 8 && be(arr(result), off(result), 8) == mod(i64, 1<<64)

func makeFillValueFloat(f)
  prop C05
  throws
  ensures len(result) == 4 && be(arr(result), off(result), 4) == f32bits(f)

func makeFillValueDouble(d)
  prop C05
  throws
  ensures len(result) == 8 && be(arr(result), off(result), 8) == f64bits(d)

// the default fill value of each type, as the big-endian word that fills the space
def fillw(ty int) = ite(ty == 1, 129, ite(ty == 2, 0, ite(ty == 3, 32769, ite(ty == 4, 2147483649, ite(ty == 5, 2096103424, \
  ite(ty == 6, 5160562223013167104, ite(ty == 7, 255, ite(ty == 8, 65535, ite(ty == 9, 4294967295, ite(ty == 10, 9223372036854775810, 18446744073709551614))))))))))
def tsize(ty int) = ite(ty == 1 || ty == 2 || ty == 7, 1, ite(ty == 3 || ty == 8, 2, ite(ty == 4 || ty == 5 || ty == 9, 4, 8)))
def bew(d Bytes, o int, w int) = ite(w == 1, d[o], ite(w == 2, be(d, o, 2), ite(w == 4, be(d, o, 4), be(d, o, 8))))

func makeFillValueReader(v, bf)
  prop C05
  throws
  requires v.attrs != nil && v.attrs.values != nil
  let fr = unboxed(part(any(result), 1), "*internal.FillValueReader")
  ensures 1 <= v.vType && v.vType <= 11
  ensures nparts(any(result)) == 2 && part(any(result), 0) == any(bf)
  ensures istype(part(any(result), 1), "*internal.FillValueReader")
  ensures len(fr.repeat) == tsize(v.vType) && fr.repeatIndex == 0
  ensures !has(v.attrs.values, "_FillValue") ==> bew(arr(fr.repeat), off(fr.repeat), tsize(v.vType)) == fillw(v.vType)

// ---- records: where each piece of a record variable is read
func newSeekReader(file, offset)
  prop C03 C04
  ensures istype(result, "*seekReader") && fresh(unboxed(result, "*seekReader"))
  ensures unboxed(result, "*seekReader").offset == offset && unboxed(result, "*seekReader").file == file && isnil(unboxed(result, "*seekReader").reader)

lemma qdiv(r int, k int, v int)
  prop C03 C04
  requires v > 0 && 0 <= k && k < v
  ensures div(r*v + k, v) == r && mod(r*v + k, v) == k

opaque def qb(r int, v int) = r * v

lemma qb_step(r int, v int)
  prop C03 C04
  use qb(r, v)
  use qb(r+1, v)
  ensures qb(r+1, v) == qb(r, v) + v

lemma qb_div(r int, v int)
  prop C03 C04
  requires v > 0
  use qb(r, v)
  use qdiv(r, 0, v)
  ensures div(qb(r, v), v) == r && mod(qb(r, v), v) == 0

lemma qb_split(s int, v int)
  prop C03 C04
  requires v > 0 && s >= 0
  use qb(div(s, v), v)
  ensures qb(div(s, v), v) + mod(s, v) == s && 0 <= mod(s, v) && mod(s, v) < v && div(s, v) >= 0

lemma mono_mul(a int, b int, c int)
  prop C03 C04
  requires 0 <= a && a <= b && c >= 0
  ensures 0 <= a*c && a*c <= b*c

lemma qb_le(r int, s int, v int, l int)
  prop C03 C04
  requires v > 0 && 0 <= s && s <= l
  use qb_split(s, v)
  use qb_split(l, v)
  ensures div(s, v) <= div(l, v)

func (cdf *CDF) newRecordReader(v, start, size)
  prop C03 C04
  throws
  requires v != nil && v.attrs != nil && v.attrs.values != nil
  requires v.vsize > 0 && start >= 0 && size >= 0 && start + size < 1<<62
  let r0 = div(init(start), v.vsize)
  let k0 = mod(init(start), v.vsize)
  let vs = v.vsize
  let last = init(start) + init(size)
  use qb_split(start, v.vsize)
  ensures all(j, 0, nparts(any(result)), limof(part(any(result), j)) == min(last, qb(r0 + j + 1, vs)) - ite(j == 0, qb(r0, vs) + k0, qb(r0 + j, vs)))
  ensures all(j, 0, nparts(any(result)), unboxed(part(limsrc(part(any(result), j)), 0), "*seekReader").offset == v.begin + qb(r0 + j, cdf.recSize) + ite(j == 0, k0, 0))
  ensures init(size) > 0 ==> nparts(any(result)) > 0 && last <= qb(r0 + nparts(any(result)), vs)
  ensures init(size) == 0 ==> nparts(any(result)) == 0
  loop 0: use qb(div(start, vs), cdf.recSize)
  loop 0: invariant size == 0 && len(readers) > 0 ==> last <= qb(r0 + len(readers), vs)
  loop 0: invariant len(readers) == 0 ==> size == init(size)
  loop 0: invariant init(size) == 0 ==> len(readers) == 0
  requires v.begin < 1<<60 && cdf.recSize < 1<<60 && div(start + size, v.vsize) * cdf.recSize < 1<<60 && v.vsize < 1<<60
  loop 0: invariant 0 <= size && start + size == last && 0 <= start
  loop 0: invariant len(readers) == 0 ==> start == init(start)
  loop 0: invariant size > 0 && len(readers) > 0 ==> start == qb(r0 + len(readers), vs)
  loop 0: invariant all(j, 0, len(readers), limof(any(readers[j])) == min(last, qb(r0 + j + 1, vs)) - ite(j == 0, qb(r0, vs) + k0, qb(r0 + j, vs)))
  loop 0: invariant all(j, 0, len(readers), live(unboxed(part(limsrc(any(readers[j])), 0), "*seekReader")))
  loop 0: invariant all(j, 0, len(readers), unboxed(part(limsrc(any(readers[j])), 0), "*seekReader").offset == v.begin + qb(r0 + j, cdf.recSize) + ite(j == 0, k0, 0))
  loop 0: use qb_step(r0 + len(readers), vs)
  loop 0: use qb_div(r0 + len(readers), vs)
  loop 0: use qb_split(start, vs)
  loop 0: use qb_le(r0, start, vs, last)
  loop 0: use mono_mul(div(start, vs), div(last, vs), cdf.recSize)
