// Contracts assumed of the standard library's streams (the documented
// contracts of io.Reader, io.Writer and bufio): a writer's output is the ghost
// sequence out(w); a reader delivers the ghost sequence in(r) from position inpos(r).

extern func (w io.Writer) Write(p)
  modifies out(w)
  ensures 0 <= result0 && result0 <= len(p)
  ensures result1 == nil ==> result0 == len(p)
  ensures outlen(w) == old(outlen(w)) + result0
  ensures all(i, 0, old(outlen(w)), outat(w, i) == old(outat(w, i)))
  ensures all(i, 0, result0, outat(w, old(outlen(w)) + i) == p[i])

extern func (w *bufio.Writer) Write(p)
  modifies out(w)
  ensures 0 <= result0 && result0 <= len(p)
  ensures result1 == nil ==> result0 == len(p)
  ensures outlen(w) == old(outlen(w)) + result0
  ensures all(i, 0, old(outlen(w)), outat(w, i) == old(outat(w, i)))
  ensures all(i, 0, result0, outat(w, old(outlen(w)) + i) == p[i])

extern func (w *bytes.Buffer) Write(p)
  modifies out(w)
  ensures result0 == len(p) && result1 == nil
  ensures outlen(w) == old(outlen(w)) + len(p)
  ensures all(i, 0, old(outlen(w)), outat(w, i) == old(outat(w, i)))
  ensures all(i, 0, result0, outat(w, old(outlen(w)) + i) == p[i])

extern func (w io.ByteWriter) WriteByte(c)
  modifies out(w)
  ensures 0 <= outlen(w) - old(outlen(w)) && outlen(w) - old(outlen(w)) <= 1
  ensures result == nil ==> outlen(w) == old(outlen(w)) + 1 && outat(w, old(outlen(w))) == c
  ensures all(i, 0, old(outlen(w)), outat(w, i) == old(outat(w, i)))

extern func (w *bytes.Buffer) WriteByte(c)
  modifies out(w)
  ensures result == nil
  ensures outlen(w) == old(outlen(w)) + 1 && outat(w, old(outlen(w))) == c
  ensures all(i, 0, old(outlen(w)), outat(w, i) == old(outat(w, i)))

extern func (r io.Reader) Read(p)
  modifies in(r), elems(p)
  ensures 0 <= result0 && result0 <= len(p)
  ensures inpos(r) == old(inpos(r)) + result0
  ensures inpos(r) <= inlen(r)
  ensures all(i, 0, result0, p[i] == inat(r, old(inpos(r)) + i))
  ensures all(i, (i < off(p) || i >= off(p) + result0) ==> arr(p)[i] == old(arr(p))[i])

extern func (b *bytes.Buffer) Bytes()
  ensures len(result) == outlen(b) && fresh(result)
  ensures all(i, 0, outlen(b), result[i] == outat(b, i))

extern func (b *bytes.Buffer) Len()
  ensures result == outlen(b)

// composed readers: parts and limits as ghost functions of the reader
fn part(r Any, i int) Any
fn nparts(r Any) int
fn limof(r Any) int
fn limsrc(r Any) Any

extern func io.LimitReader(r, n)
  ensures limof(any(result)) == n && limsrc(any(result)) == any(r)

extern func io.MultiReader(readers)
  ensures nparts(any(result)) == len(readers)
  ensures all(i, 0, len(readers), part(any(result), i) == any(readers[i]))

extern func (s io.ReadSeeker) Seek(offset, whence)
  modifies in(s)
  ensures result1 == nil && whence == 0 ==> inpos(s) == offset && result0 == offset

extern func (r io.ReadSeeker) Read(p)
  modifies in(r), elems(p)
  ensures 0 <= result0 && result0 <= len(p)
  ensures inpos(r) == old(inpos(r)) + result0
  ensures inpos(r) <= inlen(r)
  ensures all(i, 0, result0, p[i] == inat(r, old(inpos(r)) + i))
  ensures all(i, (i < off(p) || i >= off(p) + result0) ==> arr(p)[i] == old(arr(p))[i])

