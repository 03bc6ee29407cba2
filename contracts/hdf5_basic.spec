package netcdf/hdf5

// ---- numbers in the file
func readEnc(r, e)
  prop H01 H09
  throws
  modifies in(r)
  ensures e == 1 || e == 2 || e == 3 || e == 4 || e == 8
  ensures inpos(r) == old(inpos(r)) + e
  ensures e == 1 ==> result == inat(r, old(inpos(r)))
  ensures e == 2 ==> result == le(indat(r), old(inpos(r)), 2)
  ensures e == 3 ==> result == le(indat(r), old(inpos(r)), 2) + 65536 * inat(r, old(inpos(r)) + 2)
  ensures e == 4 ==> result == le(indat(r), old(inpos(r)), 4)
  ensures e == 8 ==> result == le(indat(r), old(inpos(r)), 8)

func writeEnc(buf, val, totalSize)
  prop H01 H02
  throws
  requires buf != nil && val < totalSize
  modifies out(buf)
  ensures outlen(buf) == old(outlen(buf)) + ite(totalSize < 1<<8, 1, ite(totalSize < 1<<16, 2, ite(totalSize < 1<<24, 3, 4)))
  ensures all(i, 0, old(outlen(buf)), outat(buf, i) == old(outat(buf, i)))
  ensures totalSize < 1<<8 ==> outat(buf, old(outlen(buf))) == val
  ensures totalSize >= 1<<8 && totalSize < 1<<16 ==> le(outdat(buf), old(outlen(buf)), 2) == val
  ensures totalSize >= 1<<16 && totalSize < 1<<24 ==> le(outdat(buf), old(outlen(buf)), 2) + 65536 * outat(buf, old(outlen(buf)) + 2) == val
  ensures totalSize >= 1<<24 ==> le(outdat(buf), old(outlen(buf)), 4) == val

func log2(v)
  prop H09
  ensures v == 0 ==> result == -1
  ensures v > 0 ==> 0 <= result && result < 64 && pow2(result) <= v && v < pow2(result + 1)
  loop 0: invariant -1 <= r && r < 64
  loop 0: invariant init(v) == 0 ==> r == -1
  loop 0: invariant r == -1 ==> v == init(v)
  loop 0: invariant v == div(init(v), pow2(r + 1))

func bytesFor(max)
  prop H09
  requires max > 0
  ensures 1 <= result && result <= 8 && max < pow2(8 * result) && (result > 1 ==> max >= pow2(8 * (result - 1)))
  ensures result == bn(max)

def leN(d Bytes, q int, n int) = ite(n <= 0, 0, leN(d, q, n-1) + pow2(8*(n-1)) * d[q+n-1])

func hasFlag8(flags, flag)
  prop H07
  mode bv
  requires flag < 8
  ensures result <==> (flags >> uint8(flag)) & 1 == 1

func getString(b)
  prop H07 H01
  ensures len(result) <= len(b)
  ensures all(i, 0, len(result), result[i] == b[i] && b[i] != 0)
  ensures len(result) < len(b) ==> b[len(result)] == 0
  loop 0: invariant end == iter
  loop 0: invariant all(i, 0, iter, b[i] != 0)

// ---- files: handles and reference counts
func newRefCountedFile(file)
  prop A04
  ensures fresh(result) && result.refCount == 1 && result.file == file

func (rcf *refCountedFile) reference()
  prop A04
  requires rcf != nil && rcf.refCount < 1<<62
  modifies rcf.refCount
  ensures rcf.refCount == old(rcf.refCount) + 1

func (rcf *refCountedFile) dereference()
  prop A04
  requires rcf != nil && rcf.refCount > -(1<<62)
  modifies rcf.refCount, rcf.file
  ensures rcf.refCount == old(rcf.refCount) - 1
  ensures rcf.refCount > 0 ==> rcf.file == old(rcf.file) && result == nil
  ensures rcf.refCount == 0 ==> isnil(rcf.file) && result == nil
  ensures rcf.refCount < 0 ==> result != nil && rcf.file == old(rcf.file)

func newRaFile(file)
  prop A04
  ensures fresh(result) && fresh(result.rcFile) && result.rcFile.refCount == 1 && result.rcFile.file == file && result.seekPointer == 0

func (f *raFile) Close()
  prop A04
  requires f != nil && f.rcFile != nil && f.rcFile.refCount > -(1<<62)
  modifies f.rcFile.refCount, f.rcFile.file
  ensures f.rcFile.refCount == old(f.rcFile.refCount) - 1
  ensures f.rcFile.refCount > 0 ==> f.rcFile.file == old(f.rcFile.file)
  ensures f.rcFile.refCount == 0 ==> isnil(f.rcFile.file)

func (f *raFile) dup()
  prop A04
  requires f != nil && f.rcFile != nil && f.rcFile.refCount < 1<<62
  modifies f.rcFile.refCount
  ensures fresh(result) && result.rcFile == f.rcFile && result.seekPointer == f.seekPointer
  ensures f.rcFile.refCount == old(f.rcFile.refCount) + 1

func (f *raFile) seekAt(offset)
  prop A04
  requires f != nil
  ensures fresh(result) && result.rcFile == f.rcFile && result.seekPointer == offset

func (h5 *HDF5) Close()
  prop A04
  requires h5 != nil && (h5.file != nil ==> h5.file.rcFile != nil && h5.file.rcFile.refCount > 0)
  modifies h5.file, h5.file.rcFile.refCount, h5.file.rcFile.file
  ensures h5.file == nil
  ensures old(h5.file) != nil ==> old(h5.file).rcFile.refCount == old(h5.file.rcFile.refCount) - 1
  ensures old(h5.file) != nil && old(h5.file.rcFile.refCount) > 1 ==> old(h5.file).rcFile.file == old(h5.file.rcFile.file)
  ensures old(h5.file) != nil && old(h5.file.rcFile.refCount) == 1 ==> isnil(old(h5.file).rcFile.file)

// ---- names
func isReservedAttribute(name)
  prop A03
  ensures result <==> name == "CLASS" || name == "NAME" || name == "DIMENSION_LIST" || name == "REFERENCE_LIST"

func (hw *HDF5Writer) isDimension(name)
  prop A03
  requires hw != nil
  ensures result <==> has(hw.dimSizes, name) || has(hw.dimUnknown, name) && hw.dimUnknown[name]
