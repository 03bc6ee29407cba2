package netcdf/hdf5

// ---- what the writer puts in the messages, byte by byte (HDF5 file format specification 3.0)
// Dataspace message, version 1
func buildDataspaceMessage(dimensions)
  prop H01 H02
  requires len(dimensions) < 256
  ensures len(result) == 8 + 8*len(dimensions)
  ensures result[0] == 1 && result[1] == len(dimensions) && all(i, 2, 8, result[i] == 0)
  ensures all(i, 0, len(dimensions), le(arr(result), off(result) + 8 + 8*i, 8) == dimensions[i])
  loop 0: invariant outlen(buf) == 4 + iter
  loop 0: invariant outat(buf, 0) == 1 && outat(buf, 1) == len(dimensions)
  loop 0: invariant all(i, 2, outlen(buf), outat(buf, i) == 0)
  loop 1: invariant outlen(buf) == 4 + iter
  loop 1: invariant outat(buf, 0) == 1 && outat(buf, 1) == len(dimensions)
  loop 1: invariant all(i, 2, outlen(buf), outat(buf, i) == 0)
  loop 2: invariant outlen(buf) == 8 + 8*iter
  loop 2: invariant outat(buf, 0) == 1 && outat(buf, 1) == len(dimensions) && all(i, 2, 8, outat(buf, i) == 0)
  loop 2: invariant all(i, 0, iter, le(outdat(buf), 8 + 8*i, 8) == dimensions[i])

// Datatype messages, version 1: class, bit field, size, properties
func buildFixedPointDatatype(size, signed, order)
  prop H01 H02
  requires 1 <= size && size <= 8
  ensures len(result) == 12 && result[0] == 0x10 && result[2] == 0 && result[3] == 0
  ensures result[1] == ite(istype(order, "binary.bigEndian"), 1, 0) + ite(signed, 8, 0)
  ensures le(arr(result), off(result) + 4, 4) == size && le(arr(result), off(result) + 8, 2) == 0 && le(arr(result), off(result) + 10, 2) == 8*size

func buildFloatingPointDatatype(size, order)
  prop H01 H02
  requires size == 4 || size == 8
  ensures len(result) == 20 && result[0] == 0x11 && result[3] == 0
  ensures result[1] == ite(istype(order, "binary.bigEndian"), 1, 0) + 32
  ensures result[2] == ite(size == 4, 31, 63)
  ensures le(arr(result), off(result) + 4, 4) == size && le(arr(result), off(result) + 8, 2) == 0 && le(arr(result), off(result) + 10, 2) == 8*size
  ensures size == 4 ==> result[12] == 23 && result[13] == 8 && result[14] == 0 && result[15] == 23 && le(arr(result), off(result) + 16, 4) == 127
  ensures size == 8 ==> result[12] == 52 && result[13] == 11 && result[14] == 0 && result[15] == 52 && le(arr(result), off(result) + 16, 4) == 1023

func buildStringDatatype(size)
  prop H01 H02
  requires 0 <= size && size < 1<<32
  ensures len(result) == 8 && result[0] == 0x13 && result[1] == 0 && result[2] == 0 && result[3] == 0
  ensures le(arr(result), off(result) + 4, 4) == size

func buildOpaqueDatatype(size)
  prop H01 H02
  requires 0 <= size && size < 1<<32
  throws when size == 0
  ensures len(result) == 8 && result[0] == 0x15 && result[1] == 0 && result[2] == 0 && result[3] == 0
  ensures le(arr(result), off(result) + 4, 4) == size

func (hw *HDF5Writer) buildVLenStringDatatype()
  prop H01 H02
  ensures len(result) == 16 && result[0] == 0x19 && result[1] == 1 && result[2] == 0 && result[3] == 0
  ensures le(arr(result), off(result) + 4, 4) == 16
  ensures result[8] == 0x13 && result[9] == 0 && result[10] == 0 && result[11] == 0 && le(arr(result), off(result) + 12, 4) == 1

func buildReferenceDatatype()
  prop H02 A02
  ensures len(result) == 8 && result[0] == 0x17 && result[1] == 0 && result[2] == 0 && result[3] == 0
  ensures le(arr(result), off(result) + 4, 4) == 8

func buildVLenReferenceDatatype()
  prop H02 A02
  ensures len(result) == 16 && result[0] == 0x19 && result[1] == 0 && result[2] == 0 && result[3] == 0
  ensures le(arr(result), off(result) + 4, 4) == 16
  ensures result[8] == 0x17 && result[9] == 0 && result[10] == 0 && result[11] == 0 && le(arr(result), off(result) + 12, 4) == 8

func (hw *HDF5Writer) buildLinkInfoMessage()
  prop H02
  ensures result.mType == 2 && result.flags == 0 && len(result.data) == 18 && result.data[0] == 0 && result.data[1] == 0
  ensures all(i, 2, 18, result.data[i] == 255)

func (hw *HDF5Writer) buildLinkMessage(name, addr)
  prop H02 H07 H08
  requires len(name) < 1<<16
  let ns = ite(len(name) < 256, 1, 2)
  ensures result.mType == 6 && result.flags == 0 && len(result.data) == 2 + ns + len(name) + 8
  ensures result.data[0] == 1 && result.data[1] == ns - 1
  ensures len(name) < 256 ==> result.data[2] == len(name)
  ensures len(name) >= 256 ==> le(arr(result.data), off(result.data) + 2, 2) == len(name)
  ensures all(i, 0, len(name), result.data[2 + ns + i] == name[i])
  ensures le(arr(result.data), off(result.data) + 2 + ns + len(name), 8) == addr

func (hw *HDF5Writer) buildLayoutMessageV2(addr, size)
  prop H01 H02
  ensures len(result) == 18 && result[0] == 3 && result[1] == 1
  ensures le(arr(result), off(result) + 2, 8) == addr && le(arr(result), off(result) + 10, 8) == size

func (hw *HDF5Writer) writeSuperblockV2()
  prop H02
  requires hw != nil && hw.buf != nil
  modifies out(hw.buf)
  let p = old(outlen(hw.buf))
  ensures outlen(hw.buf) == old(outlen(hw.buf)) + 48
  ensures all(i, 0, old(outlen(hw.buf)), outat(hw.buf, i) == old(outat(hw.buf, i)))
  ensures outat(hw.buf, p) == 0x89 && outat(hw.buf, p+1) == 72 && outat(hw.buf, p+2) == 68 && outat(hw.buf, p+3) == 70 && outat(hw.buf, p+4) == 13 && outat(hw.buf, p+5) == 10 && outat(hw.buf, p+6) == 0x1a && outat(hw.buf, p+7) == 10
  ensures outat(hw.buf, p+8) == 2 && outat(hw.buf, p+9) == 8 && outat(hw.buf, p+10) == 8 && outat(hw.buf, p+11) == 0
  ensures all(i, 12, 20, outat(hw.buf, p+i) == 0) && all(i, 20, 28, outat(hw.buf, p+i) == 255)

func (hw *HDF5Writer) writeVlenDescriptor(buf, length, ref)
  prop H01 H09
  requires buf != nil && 0 <= length && length < 1<<32
  modifies out(buf)
  let p = old(outlen(buf))
  ensures outlen(buf) == old(outlen(buf)) + 16
  ensures all(i, 0, old(outlen(buf)), outat(buf, i) == old(outat(buf, i)))
  ensures le(outdat(buf), p, 4) == length && le(outdat(buf), p + 4, 8) == ref.addr && le(outdat(buf), p + 12, 4) == ref.index

// an object of the global heap: index, reference count, reserved, length, and the object, all at multiples of 8
func (hw *HDF5Writer) addHeapObject(obj)
  prop H01 H02 H09
  requires hw != nil && hw.buf != nil && hw.heap != nil
  requires 0 <= hw.heap.count && hw.heap.count < 65535 && outlen(hw.buf) < 1<<60 && len(obj) < 1<<60
  requires hw.heap.count > 0 ==> mod(outlen(hw.buf), 8) == 0
  modifies out(hw.buf), hw.heap.count, hw.heap.addr
  let p0 = old(outlen(hw.buf))
  let a0 = old(outlen(hw.buf)) + mod(8 - mod(old(outlen(hw.buf)), 8), 8)
  ensures hw.heap.count == old(hw.heap.count) + 1
  ensures result0.index == hw.heap.count && result0.addr == hw.heap.addr
  ensures old(hw.heap.count) > 0 ==> hw.heap.addr == old(hw.heap.addr) && result1 == p0 + 16
  ensures old(hw.heap.count) == 0 ==> hw.heap.addr == a0 && result1 == a0 + 32
  ensures old(hw.heap.count) == 0 ==> outat(hw.buf, a0) == 71 && outat(hw.buf, a0+1) == 67 && outat(hw.buf, a0+2) == 79 && outat(hw.buf, a0+3) == 76 && outat(hw.buf, a0+4) == 1 && outat(hw.buf, a0+5) == 0 && outat(hw.buf, a0+6) == 0 && outat(hw.buf, a0+7) == 0
  ensures mod(result1, 8) == 0 && mod(outlen(hw.buf), 8) == 0
  ensures result1 + len(obj) <= outlen(hw.buf) && outlen(hw.buf) < result1 + len(obj) + 8
  ensures all(i, 0, old(outlen(hw.buf)), outat(hw.buf, i) == old(outat(hw.buf, i)))
  ensures le(outdat(hw.buf), result1 - 16, 2) == hw.heap.count && le(outdat(hw.buf), result1 - 14, 2) == 0 && le(outdat(hw.buf), result1 - 12, 4) == 0 && le(outdat(hw.buf), result1 - 8, 8) == len(obj)
  ensures all(i, 0, len(obj), outat(hw.buf, result1 + i) == obj[i])
  let q = ite(old(hw.heap.count) == 0, a0 + 32, p0 + 16)
  loop 0: invariant outlen(hw.buf) >= p0 && outlen(hw.buf) <= a0
  loop 0: invariant all(i, 0, p0, outat(hw.buf, i) == old(outat(hw.buf, i)))
  loop 1: invariant outlen(hw.buf) >= q + len(obj) && outlen(hw.buf) < q + len(obj) + 8
  loop 1: invariant outlen(hw.buf) <= q + len(obj) + mod(8 - mod(len(obj), 8), 8)
  loop 1: invariant all(i, 0, q + len(obj), outat(hw.buf, i) == init(outat(hw.buf, i)))

// ---- object headers: the messages one after another, padded with a null message, and a checksum
// a name for the length of message i (given by the precondition)
fn mlen(i int) int
opaque def mpos(n int) = ite(n <= 0, 0, mpos(n-1) + 4 + mlen(n-1))

lemma mpos_pos(n int)
  prop H02
  requires 0 <= n && all(j, 0, n, mlen(j) >= 0)
  induct n
  use mpos(n)
  ensures mpos(n) >= 0

lemma mpos_mono(i int, n int)
  prop H02
  requires 0 <= i && i <= n && all(j, 0, n, mlen(j) >= 0)
  induct n from i
  use mpos(n)
  use mpos_pos(i)
  ensures mpos(i) + 4*(n-i) <= mpos(n) && mpos(i) >= 0

fn mty(i int) int
fn mfl(i int) int
fn mbyte(i int, j int) int
// message i is found at p
opaque def ment(d Bytes, p int, i int) bool = d[p] == mty(i) && le(d, p+1, 2) == mlen(i) && d[p+3] == mfl(i) && all(j, 0, mlen(i), d[p+4+j] == mbyte(i, j))

lemma ment_ext(d Bytes, e Bytes, p int, q int, i int)
  prop H02
  requires mlen(i) >= 0 && all(k, 0, 4 + mlen(i), d[p+k] == e[q+k]) && ment(d, p, i)
  use ment(d, p, i)
  use ment(e, q, i)
  ensures ment(e, q, i)

func (hw *HDF5Writer) writeObjectHeaderV2(messages)
  prop H02
  requires hw != nil && hw.buf != nil && len(messages) < 1<<20
  requires all(i, 0, len(messages), len(messages[i].data) == mlen(i) && mlen(i) < 1<<16 && messages[i].mType < 256 && messages[i].mType == mty(i) && messages[i].flags == mfl(i) && allocated(messages[i].data))
  requires all(i, 0, len(messages), mlen(i) >= 0)
  requires all(i, 0, len(messages), all(j, 0, mlen(i), messages[i].data[j] == mbyte(i, j)))
  requires outlen(hw.buf) < 1<<60 && mpos(len(messages)) < 1<<31
  modifies out(hw.buf)
  let p = old(outlen(hw.buf))
  let n = len(messages)
  let ml = mpos(len(messages))
  let r = mod(mpos(len(messages)), 8)
  let mlp = ml + ite(r == 0, 0, ite(r > 4, 16 - r, 8 - r))
  use mpos(0)
  use mpos_pos(len(messages))
  ensures outlen(hw.buf) == p + 10 + mlp + 4
  ensures all(i, 0, p, outat(hw.buf, i) == old(outat(hw.buf, i)))
  ensures outat(hw.buf, p) == 79
  ensures outat(hw.buf, p+1) == 72
  ensures outat(hw.buf, p+2) == 68
  ensures outat(hw.buf, p+3) == 82
  ensures outat(hw.buf, p+4) == 2
  ensures outat(hw.buf, p+5) == 2
  ensures le(outdat(hw.buf), p + 6, 4) == mlp
  ensures r != 0 ==> outat(hw.buf, p + 10 + ml) == 0
  ensures r != 0 ==> le(outdat(hw.buf), p + 11 + ml, 2) == mlp - ml - 4
  ensures r != 0 ==> all(j, 13 + ml, 10 + mlp, outat(hw.buf, p + j) == 0)
  assertexit all(k, 0, ml, outat(hw.buf, p + 10 + k) == outat(msgBuf, k))
  useexit all(i, 0, n, mpos(i+1))
  useexit all(i, 0, n, mpos_pos(i))
  useexit all(i, 0, n, mpos_mono(i+1, n))
  useexit all(i, 0, n, ment(outdat(hw.buf), p + 10 + mpos(i), i))
  assertexit all(i, 0, n, mpos(i) + 4 + mlen(i) <= ml)
  assertexit all(i, 0, n, outat(msgBuf, mpos(i)) == mty(i))
  assertexit all(i, 0, n, le(outdat(msgBuf), mpos(i) + 1, 2) == mlen(i))
  assertexit all(i, 0, n, outat(msgBuf, mpos(i) + 3) == mfl(i))
  assertexit all(i, 0, n, all(j, 0, mlen(i), outat(msgBuf, mpos(i) + 4 + j) == mbyte(i, j)))
  assertexit all(i, 0, n, outat(hw.buf, p + 10 + mpos(i)) == mty(i))
  assertexit all(i, 0, n, le(outdat(hw.buf), p + 11 + mpos(i), 2) == mlen(i))
  assertexit all(i, 0, n, outat(hw.buf, p + 13 + mpos(i)) == mfl(i))
  assertexit all(i, 0, n, all(j, 0, mlen(i), outat(hw.buf, p + 10 + mpos(i) + 4 + j) == mbyte(i, j)))
  ensures all(i, 0, n, ment(outdat(hw.buf), p + 10 + mpos(i), i))
  loop 0: use mpos(iter+1)
  loop 0: use mpos_mono(iter, len(messages))
  loop 0: use mpos_mono(iter+1, len(messages))
  loop 0: invariant outlen(msgBuf) == mpos(iter)
  loop 0: stepuse all(i, 0, iter-1, mpos(i+1))
  loop 0: stepuse all(i, 0, iter-1, mpos_pos(i))
  loop 0: stepuse all(i, 0, iter-1, mpos_mono(i+1, iter-1))
  loop 0: stepuse all(i, 0, iter-1, ment_ext(prev(outdat(msgBuf)), outdat(msgBuf), mpos(i), mpos(i), i))
  loop 0: stepuse ment(outdat(msgBuf), mpos(iter-1), iter-1)
  loop 0: step all(k, 0, mpos(iter-1), outat(msgBuf, k) == prev(outat(msgBuf, k)))
  loop 0: step all(j, 0, mlen(iter-1), outat(msgBuf, mpos(iter-1)+4+j) == messages[iter-1].data[j])
  loop 0: step all(j, 0, mlen(iter-1), messages[iter-1].data[j] == mbyte(iter-1, j))
  loop 0: step all(j, 0, mlen(iter-1), outat(msgBuf, mpos(iter-1)+4+j) == mbyte(iter-1, j))
  loop 0: step ment(outdat(msgBuf), mpos(iter-1), iter-1)
  loop 0: step all(i, 0, iter-1, ment(outdat(msgBuf), mpos(i), i))
  loop 0: invariant all(i, 0, iter, ment(outdat(msgBuf), mpos(i), i))
  loop 0: stepuse all(i, 0, iter, ment(outdat(msgBuf), mpos(i), i))
  loop 0: invariant all(i, 0, iter, outat(msgBuf, mpos(i)) == mty(i) && le(outdat(msgBuf), 1 + mpos(i), 2) == mlen(i) && outat(msgBuf, 3 + mpos(i)) == mfl(i))
  loop 0: invariant all(i, 0, iter, all(j, 0, mlen(i), outat(msgBuf, mpos(i) + 4 + j) == mbyte(i, j)))
  loop 1: invariant outlen(msgBuf) == ml + 4 + iter
  loop 1: invariant all(j, 0, ml + 3, outat(msgBuf, j) == init(outat(msgBuf, j))) && all(j, ml + 3, ml + 4 + iter, outat(msgBuf, j) == 0)
