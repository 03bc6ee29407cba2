package internal

// ---- remainders by a variable
lemma euclid(a int, m int, q int, r int)
  prop C05
  requires m > 0 && 0 <= r && r < m && a == m*q + r
  ensures mod(a, m) == r

lemma mod_shift(a int, d int, m int)
  prop C05
  requires m > 0 && mod(a, m) == 0 && 0 <= d && d < m
  use euclid(a + d, m, div(a, m), d)
  ensures mod(a + d, m) == d

lemma mod_wrap(a int, m int)
  prop C05
  requires m > 0
  use euclid(a + m, m, div(a, m) + 1, mod(a, m))
  ensures mod(a + m, m) == mod(a, m)

lemma mod_sum(a int, b int, m int)
  prop C05
  requires m > 0
  use euclid(a, m, div(a, m), mod(a, m))
  use euclid(mod(a, m) + b, m, div(mod(a, m) + b, m), mod(mod(a, m) + b, m))
  use euclid(a + b, m, div(a, m) + div(mod(a, m) + b, m), mod(mod(a, m) + b, m))
  ensures mod(a + b, m) == mod(mod(a, m) + b, m)

opaque def md(a int, m int) = mod(a, m)

lemma md_block(i int, j int, m int)
  prop C05
  requires m > 0 && mod(i, m) == 0 && i <= j && j < i + m
  use md(j, m)
  use euclid(j, m, div(i, m), j - i)
  ensures md(j, m) == j - i

lemma md_sum(a int, b int, m int)
  prop C05
  requires m > 0 && mod(a, m) == 0
  use md(a + b, m)
  use mod_sum(a, b, m)
  ensures md(a + b, m) == mod(b, m)

lemma md_range(j int, m int)
  prop C05
  requires m > 0
  use md(j, m)
  ensures 0 <= md(j, m) && md(j, m) < m

// the repeating reader: byte k after the current position is repeat[(index+k) mod len]
func (fvr *FillValueReader) Read(p)
  prop C05
  requires len(fvr.repeat) > 0 && 0 <= fvr.repeatIndex && fvr.repeatIndex < len(fvr.repeat)
  requires aref(p) != aref(fvr.repeat)
  modifies fvr.repeatIndex, elems(p)
  let rl = len(fvr.repeat)
  ensures result0 == len(p) && result1 == nil
  ensures all(i, 0, len(p), p[i] == fvr.repeat[md(old(fvr.repeatIndex) + i, rl)])
  ensures fvr.repeatIndex == md(old(fvr.repeatIndex) + len(p), rl)
  ensures all(i, (i < off(p) || i >= off(p) + len(p)) ==> arr(p)[i] == old(arr(p))[i])
  use md(fvr.repeatIndex + len(p), len(fvr.repeat))
  loop 0: invariant mod(i, rl) == 0
  loop 0: invariant aref(z) == aref(p) && off(z) == off(p) + i && len(z) == len(p) - i && len(z) <= cap(z)
  loop 0: invariant all(j, 0, i, p[j] == fvr.repeat[md(j, rl)])
  loop 0: invariant all(j, (j < off(p) || j >= off(p) + len(p)) ==> arr(p)[j] == old(arr(p))[j])
  loop 0: use mod_wrap(i, len(fvr.repeat))
  loop 0: use all(j, md_block(i, j, len(fvr.repeat)))
  loop 0: use all(j, md_range(j, len(fvr.repeat)))
  loop 1: invariant ri == init(ri) + iter
  loop 1: invariant all(j, 0, len(p) - len(z) + iter, p[j] == fvr.repeat[md(old(fvr.repeatIndex) + j, rl)])
  loop 1: invariant all(j, (j < off(p) || j >= off(p) + len(p)) ==> arr(p)[j] == old(arr(p))[j])
  loop 1: use md_sum(len(p) - len(z), iter, len(fvr.repeat))
  loop 1: use md(old(fvr.repeatIndex) + len(p) - len(z) + iter, len(fvr.repeat))
  loop 1: use all(j, md_range(j, len(fvr.repeat)))

// ---- getters: what they return belongs to the caller
func (sl *slice) Shape()
  prop A05 A02
  requires sl != nil
  ensures sl.shape != nil ==> fresh(result)
  ensures len(result) == len(sl.shape) && all(i, 0, len(result), result[i] == sl.shape[i])

func (sl *slice) Dimensions()
  prop A05 A02
  requires sl != nil
  ensures sl.dimNames != nil ==> fresh(result)
  ensures len(result) == len(sl.dimNames) && all(i, 0, len(result), result[i] == sl.dimNames[i])

func (sl *slice) Len()
  prop A05 A02
  requires sl != nil
  ensures result == sl.length

func (sl *slice) Type()
  prop A05 A02
  requires sl != nil
  ensures result == sl.cdlType

func (sl *slice) GoType()
  prop A05 A02
  requires sl != nil
  ensures result == sl.goType

func (sl *slice) Attributes()
  prop A05 A02
  requires sl != nil
  ensures result == sl.attrs

func NewSlicer(getSlice, getSliceMD, length, shape, dimNames, attributes, cdlType, goType)
  prop A05 A02
  let s = unboxed(result, "*slice")
  ensures istype(result, "*slice") && fresh(s)
  ensures s.length == length && s.attrs == attributes && s.cdlType == cdlType && s.goType == goType
  ensures len(s.shape) == len(shape) && all(i, 0, len(shape), s.shape[i] == shape[i])
  ensures len(s.dimNames) == len(dimNames) && all(i, 0, len(dimNames), s.dimNames[i] == dimNames[i])
