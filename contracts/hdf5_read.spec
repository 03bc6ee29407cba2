package netcdf/hdf5

// ---- bytes of the file, and readers over them
fn filebytes(f Any) Bytes

// A reader made of bytes delivers them. Trusted: the wrapped bytes.Reader and
// io.LimitedReader are the standard library's.
func newResetReaderFromBytes(b)
  prop H03 H07
  trusted
  ensures fresh(result) && !isnil(result)
  ensures inpos(result) == 0 && inlen(result) == len(b)
  ensures all(i, 0, len(b), inat(result, i) == b[i])

// A reader positioned in the file delivers the file's bytes from there. Trusted
// for the same reason; raFile (below) is what it reads from.
func (h5 *HDF5) newSeek(addr, size)
  prop H03 H07
  trusted
  throws
  ensures fresh(result) && !isnil(result)
  ensures inpos(result) == addr && indat(result) == filebytes(any(h5.file.rcFile))

axiom words_bytes_int(v Words, ov int, d Bytes, od int, n int)
  requires all(k, 0, div(n, 4), v[ov + k] == le(d, od + 4*k, 4))
  requires mod(n, 4) == 1 ==> v[ov + div(n, 4)] == d[od + n - 1]
  requires mod(n, 4) == 2 ==> v[ov + div(n, 4)] == le(d, od + n - 2, 2)
  requires mod(n, 4) == 3 ==> v[ov + div(n, 4)] == le(d, od + n - 3, 2) + 65536 * d[od + n - 1]
  ensures cksumW(v, ov, n) == cksum(d, od, n)

func computeChecksumStream(bf, blen)
  prop H03
  throws
  requires blen >= 0 && blen < 1<<32
  modifies in(bf)
  ensures inpos(bf) == old(inpos(bf)) + blen
  assertexit all(k, 0, div(blen, 4), block[k] == le(indat(bf), old(inpos(bf)) + 4*k, 4))
  assertexit mod(blen, 4) == 1 ==> block[div(blen, 4)] == inat(bf, old(inpos(bf)) + blen - 1)
  assertexit mod(blen, 4) == 2 ==> block[div(blen, 4)] == le(indat(bf), old(inpos(bf)) + blen - 2, 2)
  assertexit mod(blen, 4) == 3 ==> block[div(blen, 4)] == le(indat(bf), old(inpos(bf)) + blen - 3, 2) + 65536 * inat(bf, old(inpos(bf)) + blen - 1)
  useexit words_bytes_int(arr(block), off(block), indat(bf), old(inpos(bf)), blen)
  ensures result == cksum(indat(bf), old(inpos(bf)), blen)

// what is used was checked: the stored checksum is that of the bytes covered
func (h5 *HDF5) checkChecksum(addr, blen)
  prop H03
  throws
  requires h5 != nil && h5.file != nil && blen >= 0 && blen < 1<<31
  ensures cksum(filebytes(any(h5.file.rcFile)), addr, blen) == le(filebytes(any(h5.file.rcFile)), addr + blen, 4)

lemma pow2_byte(i int)
  prop H09
  requires i == 0 || i == 1 || i == 2 || i == 3 || i == 4 || i == 5 || i == 6 || i == 7
  ensures pow2(8*i + 8) == 256 * pow2(8*i) && pow2(8*i) >= 1 && pow2(8*i + 8) <= pow2(64)

func readUint(bf, size)
  prop H09 H07
  throws
  requires 0 <= size && size <= 8
  modifies in(bf)
  ensures inpos(bf) == old(inpos(bf)) + size
  ensures result == leN(indat(bf), old(inpos(bf)), size)
  loop 0: use pow2_byte(iter)
  loop 0: use leN(indat(bf), old(inpos(bf)), iter)
  loop 0: use leN(indat(bf), old(inpos(bf)), iter + 1)
  loop 0: invariant inpos(bf) == old(inpos(bf)) + iter
  loop 0: invariant val == leN(indat(bf), old(inpos(bf)), iter) && 0 <= val && val < pow2(8*iter)

// ---- which part of the data is asked for
func getRows(attr)
  prop H05 H06
  requires attr != nil && all(i, 0, len(attr.dimensions), attr.dimensions[i] >= 1) && attr.length >= 1
  requires prod(arr(attr.dimensions), off(attr.dimensions), len(attr.dimensions), attr.length) < 1<<62
  let D = arr(attr.dimensions)
  let dk = off(attr.dimensions)
  let m = len(attr.dimensions)
  use prod_pos(D, dk, m, attr.length)
  use prod_pos(D, dk + 1, m - 1, attr.length)
  ensures m == 0 ==> firstRow == 0 && lastRow == 1 && rowSize == attr.length
  ensures m > 0 ==> rowSize == prod(D, dk+1, m-1, attr.length)
  ensures m > 0 && attr.isSlice && attr.firstDim >= 0 && attr.lastDim >= 0 ==> firstRow == attr.firstDim && lastRow == attr.lastDim
  ensures m > 0 && !attr.isSlice ==> firstRow == 0 && lastRow == attr.dimensions[0]
  loop 0: use prod(D, dk + 1 + iter, m - 1 - iter, rowSize)
  loop 0: use prod_mul(D, dk + 2 + iter, m - 2 - iter, rowSize, attr.dimensions[iter+1])
  loop 0: use prod_pos(D, dk + 2 + iter, m - 2 - iter, qb(attr.dimensions[iter+1], rowSize))
  loop 0: use qb(attr.dimensions[iter+1], rowSize)
  loop 0: use qb_mono(1, attr.dimensions[iter+1], rowSize)
  loop 0: invariant rowSize >= 1 && prod(D, dk + 1 + iter, m - 1 - iter, rowSize) == prod(D, dk+1, m-1, attr.length)

// ---- the Fletcher-32 checksum over 16-bit big-endian words, as HDF5 defines it
def fold16(s int) int = mod(s, 65536) + div(s, 65536)
fn fl1(d Bytes, q int, n int) int
fn fl2(d Bytes, q int, n int) int
axiom fl_def(d Bytes, q int, n int)
  ensures n <= 0 ==> fl1(d, q, n) == 0 && fl2(d, q, n) == 0
  ensures n > 0 ==> fl1(d, q, n) == fold16(fl1(d, q, n-1) + 256*d[q+2*n-2] + d[q+2*n-1])
  ensures n > 0 ==> fl2(d, q, n) == fold16(fl1(d, q, n) + fl2(d, q, n-1))

func (r *resetReader) Read(p)
  prop H04
  trusted
  requires r != nil
  modifies in(r), elems(p)
  ensures 0 <= result0 && result0 <= len(p)
  ensures inpos(r) == old(inpos(r)) + result0
  ensures all(i, 0, result0, p[i] == inat(r, old(inpos(r)) + i))
  ensures all(i, (i < off(p) || i >= off(p) + result0) ==> arr(p)[i] == old(arr(p))[i])

def fle1(d Bytes, q int, n int) int = ite(mod(n, 2) == 0, fl1(d, q, div(n, 2)), fold16(fl1(d, q, div(n, 2)) + 256 * d[q+n-1]))
def fle2(d Bytes, q int, n int) int = ite(mod(n, 2) == 0, fl2(d, q, div(n, 2)), fold16(fle1(d, q, n) + fl2(d, q, div(n, 2))))

func (fl *fletcher) Read(b)
  prop H03 H04
  throws
  requires fl != nil && !isnil(fl.r) && fl.size >= 4 && fl.count <= fl.size - 4 && fl.size < 1<<40
  requires len(b) < 1<<40
  let q = old(inpos(fl.r)) - old(fl.count)
  let D = indat(fl.r)
  requires fl.sum1 == fl1(indat(fl.r), inpos(fl.r) - fl.count, div(fl.count, 2)) || fl.readChecksum
  requires fl.sum2 == fl2(indat(fl.r), inpos(fl.r) - fl.count, div(fl.count, 2)) || fl.readChecksum
  requires mod(fl.count, 2) == 1 && !fl.readChecksum ==> fl.partial == inat(fl.r, inpos(fl.r) - 1)
  requires fl.sum1 <= 65535 && fl.sum2 <= 65535
  modifies in(fl.r), elems(b), fl.count, fl.sum1, fl.sum2, fl.partial, fl.checksum, fl.readChecksum
  ensures result1 == nil ==> fl.count == old(fl.count) + result0 && 0 <= result0 && result0 <= len(b)
  ensures result1 == nil ==> all(i, 0, result0, b[i] == inat(fl.r, old(inpos(fl.r)) + i))
  ensures fl.sum1 <= 65535 && fl.sum2 <= 65535
  ensures result1 == nil && fl.count < fl.size - 4 ==> !fl.readChecksum && fl.sum1 == fl1(D, q, div(fl.count, 2)) && fl.sum2 == fl2(D, q, div(fl.count, 2))
  ensures result1 == nil && fl.count < fl.size - 4 && mod(fl.count, 2) == 1 ==> fl.partial == D[inpos(fl.r) - 1]
  assertexit result1 == nil && fl.count == fl.size - 4 ==> fl.sum1 == fle1(D, q, fl.size - 4)
  assertexit result1 == nil && fl.count == fl.size - 4 ==> fl.sum2 == fle2(D, q, fl.size - 4)
  assertexit result1 == nil && fl.count == fl.size - 4 && !old(fl.readChecksum) ==> fl.checksum == le(D, q + fl.size - 4, 4)
  assertexit result1 == nil && fl.count == fl.size - 4 && !old(fl.readChecksum) ==> fl.checksum == 65536 * fl.sum2 + fl.sum1
  ensures result1 == nil && fl.count == fl.size - 4 ==> le(D, q + fl.size - 4, 4) == 65536 * fle2(D, q, fl.size - 4) + fle1(D, q, fl.size - 4)
  loop 0: use fl_def(indat(fl.r), q, div(fl.count + i, 2) + 1)
  loop 0: invariant 0 <= i && i <= n
  loop 0: invariant fl.sum1 == fl1(D, q, div(fl.count + i, 2)) && fl.sum2 == fl2(D, q, div(fl.count + i, 2))
  loop 0: invariant fl.sum1 <= 65535 && fl.sum2 <= 65535
  loop 0: invariant mod(fl.count + i, 2) == 1 ==> fl.partial == D[q + fl.count + i - 1]

// ---- a handle reads the file's bytes at its own position, wherever other handles left the file
func (f *raFile) readNoLock(p)
  prop A04 A05
  requires f != nil && f.rcFile != nil && f.seekPointer >= 0 && f.seekPointer < 1<<62 && len(p) < 1<<61
  modifies in(f.rcFile.file), f.seekPointer, elems(p)
  ensures 0 <= result0 && result0 <= len(p)
  ensures f.seekPointer == old(f.seekPointer) + result0
  ensures all(i, 0, result0, p[i] == inat(f.rcFile.file, old(f.seekPointer) + i))
  ensures all(i, (i < off(p) || i >= off(p) + result0) ==> arr(p)[i] == old(arr(p))[i])
  ensures isnil(f.rcFile.file) ==> result0 == 0

func (f *raFile) Read(p)
  prop A04 A05
  requires f != nil && f.rcFile != nil && f.seekPointer >= 0 && f.seekPointer < 1<<62 && len(p) < 1<<61
  modifies in(f.rcFile.file), f.seekPointer, elems(p)
  ensures 0 <= result0 && result0 <= len(p)
  ensures f.seekPointer == old(f.seekPointer) + result0
  ensures all(i, 0, result0, p[i] == inat(f.rcFile.file, old(f.seekPointer) + i))
  ensures all(i, (i < off(p) || i >= off(p) + result0) ==> arr(p)[i] == old(arr(p))[i])

func (f *raFile) ReadAt(b, offset)
  prop A04 A05
  requires f != nil && f.rcFile != nil && offset >= 0 && offset < 1<<61 && len(b) < 1<<60
  modifies in(f.rcFile.file), f.seekPointer, elems(b)
  ensures f.seekPointer == old(f.seekPointer)
  ensures 0 <= result0 && result0 <= len(b) && (result1 == nil ==> result0 == len(b))
  ensures all(i, 0, result0, b[i] == inat(f.rcFile.file, offset + i))
  ensures all(i, (i < off(b) || i >= off(b) + result0) ==> arr(b)[i] == old(arr(b))[i])
  loop 0: invariant 0 <= n && n <= len(b) && f.seekPointer == offset + n
  loop 0: invariant all(i, 0, n, b[i] == inat(f.rcFile.file, offset + i))
  loop 0: invariant all(i, (i < off(b) || i >= off(b) + n) ==> arr(b)[i] == old(arr(b))[i])

lemma shuf_lt(k int, ne int, n int)
  prop H04
  requires n > 0 && ne >= 0 && 0 <= k && k < qb(ne, n)
  use dm(k, n)
  use dv_lt(k, ne, n)
  use qb_step(md(k, n), ne)
  use qb_mono(md(k, n) + 1, n, ne)
  use qb_mono(0, md(k, n), ne)
  use qb(0, ne)
  use qb_comm(ne, n)
  ensures 0 <= qb(md(k, n), ne) + dv(k, n) && qb(md(k, n), ne) + dv(k, n) < qb(ne, n)

// ---- the unshuffling reader: what is left of the unshuffled block, whatever the buffers
func (r *unshuffleReader) Read(p)
  prop H04
  throws
  requires r != nil && !isnil(r.r) && r.shuffleParam < 1<<31 && r.size < 1<<40
  requires r.b != nil ==> len(r.b) == r.size && aref(p) != aref(r.b)
  modifies r.b, r.size, in(r.r), elems(p)
  let ne = dv(old(r.size), r.shuffleParam)
  use dv(r.size, r.shuffleParam)
  use qb(dv(r.size, r.shuffleParam), r.shuffleParam)
  use dm(r.size, r.shuffleParam)
  use qb_comm(dv(r.size, r.shuffleParam), r.shuffleParam)
  use all(p, shuf_lt(p, dv(r.size, r.shuffleParam), r.shuffleParam))
  let n = r.shuffleParam
  ensures 0 <= result0 && result0 <= len(p) && r.size == old(r.size) - result0
  ensures result0 == min(len(p), old(r.size))
  ensures result1 == nil ==> r.size > 0
  ensures old(r.size) > 0 ==> len(r.b) == r.size && aref(p) != aref(r.b)
  ensures old(r.b) != nil && old(r.size) > 0 ==> all(i, 0, result0, p[i] == old(r.b)[i])
  ensures old(r.b) != nil && old(r.size) > 0 ==> aref(r.b) == aref(old(r.b)) && off(r.b) == off(old(r.b)) + result0
  ensures old(r.b) == nil && old(r.size) > 0 ==> all(i, 0, result0, p[i] == arr(r.b)[off(r.b) - result0 + i])
  ensures old(r.b) == nil && old(r.size) > 0 && n <= 1 ==> all(k, 0, old(r.size), arr(r.b)[off(r.b) - result0 + k] == inat(r.r, old(inpos(r.r)) + k))
  ensures old(r.b) == nil && old(r.size) > 0 && n > 1 ==> all(k, 0, qb(ne, n), arr(r.b)[off(r.b) - result0 + k] == inat(r.r, old(inpos(r.r)) + qb(md(k, n), ne) + dv(k, n)))

func (r *resetReader) Rem()
  prop H04 H07
  requires r != nil && r.lr != nil
  ensures result == r.lr.N

func (r *resetReader) Count()
  prop H04 H07
  requires r != nil && r.lr != nil && r.size >= 0 && r.lr.N >= 0
  ensures result == r.size - r.lr.N

func calcDataSize(attr)
  prop H01 H05
  requires attr != nil && all(i, 0, len(attr.dimensions), attr.dimensions[i] >= 1)
  requires prod(arr(attr.dimensions), off(attr.dimensions), len(attr.dimensions), 1) < 1<<62
  let D = arr(attr.dimensions)
  let dk = off(attr.dimensions)
  let m = len(attr.dimensions)
  ensures result == prod(D, dk, m, 1)
  use prod(D, dk + m, 0, 1)
  loop 0: use prod(D, dk + iter, m - iter, dataSize)
  loop 0: use prod_mul(D, dk + 1 + iter, m - 1 - iter, dataSize, attr.dimensions[iter])
  loop 0: use prod_pos(D, dk + 1 + iter, m - 1 - iter, qb(attr.dimensions[iter], dataSize))
  loop 0: use qb(attr.dimensions[iter], dataSize)
  loop 0: use qb_mono(1, attr.dimensions[iter], dataSize)
  loop 0: invariant dataSize >= 1 && prod(D, dk + iter, m - iter, dataSize) == prod(D, dk, m, 1)

func checkMagic(bf, len, magic)
  prop H03 H09
  throws
  requires len >= 0 && !isnil(bf)
  modifies in(bf)
  ensures inpos(bf) == old(inpos(bf)) + len
  ensures len(magic) == len && all(i, 0, len, inat(bf, old(inpos(bf)) + i) == magic[i])

// ---- the sizes of the counts in the pointers of version 2 B-trees, after the format's
// description: a node's size, less what its records and pointers take
def bn(x int) int = ite(x < 256, 1, ite(x < 65536, 2, ite(x < 1<<24, 3, ite(x < 1<<32, 4, ite(x < 1<<40, 5, ite(x < 1<<48, 6, ite(x < 1<<56, 7, 8)))))))
def btps(sp int, rs int, below int, d int) int = 8 + bn(div(sp, rs)) + ite(d <= 1, 0, bn(below))
def bttot(sp int, rs int, d int) int = ite(d <= 0, div(sp, rs), (div(sp - btps(sp, rs, bttot(sp, rs, d-1), d), rs + btps(sp, rs, bttot(sp, rs, d-1), d)) + 1) * bttot(sp, rs, d-1) + div(sp - btps(sp, rs, bttot(sp, rs, d-1), d), rs + btps(sp, rs, bttot(sp, rs, d-1), d)))

func btreePointerSizes(nodeSize, recordSize, depth)
  prop H09
  throws
  requires nodeSize > 10 + recordSize && recordSize > 0
  ensures countSize == bn(div(nodeSize - 10, recordSize))
  ensures totalSize == ite(depth <= 1, 0, bn(bttot(nodeSize - 10, recordSize, depth - 1)))
  loop 0: use bttot(nodeSize - 10, recordSize, d)
  loop 0: use bttot(nodeSize - 10, recordSize, d - 1)
  loop 0: use bttot(nodeSize - 10, recordSize, 0)
  loop 0: invariant 1 <= d && (d <= depth || depth == 0 && d == 1)
  loop 0: invariant countSize == bn(div(nodeSize - 10, recordSize)) && space == nodeSize - 10
  loop 0: invariant maxTotal == bttot(nodeSize - 10, recordSize, d - 1) && maxTotal > 0
  loop 0: invariant totalSize == ite(d <= 1, 0, bn(bttot(nodeSize - 10, recordSize, d - 1)))
