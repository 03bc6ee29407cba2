package netcdf/util

// number of keys among the first i (from position o of a) that are not in h
opaque def vis(a Strs, o int, h StrSet, i int) = ite(i <= 0, 0, vis(a, o, h, i-1) + ite(h[a[o+i-1]], 0, 1))

// the representation: keys are all different and have values, the visible keys
// are the keys that are not hidden, in the same order
pred vcount(om, i) = vis(arr(om.keys), off(om.keys), dom(om.hiddenKeys), i)
pred ominv(om) = om.values != nil && om.hiddenKeys != nil && \
  (aref(om.keys) != aref(om.visibleKeys) || aref(om.keys) == 0) && \
  all(i, 0, len(om.keys), all(j, 0, len(om.keys), i != j ==> om.keys[i] != om.keys[j])) && \
  all(i, 0, len(om.keys), has(om.values, om.keys[i])) && \
  alls(k, has(om.hiddenKeys, k) ==> om.hiddenKeys[k]) && \
  alls(k, has(om.values, k) && !has(om.hiddenKeys, k) ==> ex(i, 0, len(om.keys), om.keys[i] == k)) && \
  len(om.visibleKeys) == vcount(om, len(om.keys)) && \
  all(i, 0, len(om.keys), !has(om.hiddenKeys, om.keys[i]) ==> 0 <= vcount(om, i) && vcount(om, i) < len(om.visibleKeys) && om.visibleKeys[vcount(om, i)] == om.keys[i])

func (om *OrderedMap) Get(key)
  prop A01
  requires om.values != nil
  ensures has == has(om.values, key)
  ensures has ==> val == om.values[key]
  ensures !has ==> val == nil

func (om *OrderedMap) Keys()
  prop A01
  requires ominv(om)
  ensures all(j, 0, len(result), has(om.values, result[j]) && !has(om.hiddenKeys, result[j]))
  ensures all(j, 0, len(result), all(l, 0, len(result), j != l ==> result[j] != result[l]))
  ensures alls(k, has(om.values, k) && !has(om.hiddenKeys, k) ==> ex(j, 0, len(result), result[j] == k))
  use all(j, vis_surj(arr(om.keys), off(om.keys), dom(om.hiddenKeys), j, len(om.keys)))
  ensures len(result) == len(om.visibleKeys)
  ensures all(i, 0, len(result), result[i] == om.visibleKeys[i])
  ensures len(result) > 0 ==> fresh(result)

func (om *OrderedMap) Add(name, val)
  prop A01
  requires ominv(om)
  modifies om.keys, om.visibleKeys, entries(om.values), elems(om.keys), elems(om.visibleKeys)
  ensures has(om.values, name) && om.values[name] == val
  ensures alls(k, k != name ==> has(om.values, k) == old(has(om.values, k)) && om.values[k] == old(om.values[k]))
  ensures (old(has(om.values, name)) || has(om.hiddenKeys, name)) ==> len(om.visibleKeys) == old(len(om.visibleKeys))
  ensures !old(has(om.values, name)) && !has(om.hiddenKeys, name) ==> len(om.visibleKeys) == old(len(om.visibleKeys)) + 1 && om.visibleKeys[len(om.visibleKeys)-1] == name
  ensures all(i, 0, old(len(om.visibleKeys)), om.visibleKeys[i] == old(om.visibleKeys[i]))
  ensures ominv(om)
  useexit vis(arr(om.keys), off(om.keys), dom(om.hiddenKeys), len(om.keys))
  useexit all(n, 0, len(om.keys)+1, vis_ext(arr(om.keys), off(om.keys), old(arr(om.keys)), old(off(om.keys)), dom(om.hiddenKeys), n))
  useexit all(n, 0, len(om.keys), vis_lt(arr(om.keys), off(om.keys), dom(om.hiddenKeys), n, len(om.keys)))

func (om *OrderedMap) Hide(hiddenKey)
  prop A01
  requires ominv(om)
  modifies om.visibleKeys, entries(om.hiddenKeys)
  ensures ominv(om)
  ensures alls(k, has(om.hiddenKeys, k) == (k == hiddenKey || old(has(om.hiddenKeys, k))))
  loop 0: use vis(arr(om.keys), off(om.keys), dom(om.hiddenKeys), 0)
  useexit vis(arr(om.keys), off(om.keys), dom(om.hiddenKeys), 0)
  useexit all(n, 0, len(om.keys), vis_lt(arr(om.keys), off(om.keys), dom(om.hiddenKeys), n, len(om.keys)))
  loop 0: invariant len(visibleKeys) == vcount(om, iter)
  loop 0: invariant aref(visibleKeys) != aref(om.keys) && fresh(visibleKeys)
  loop 0: invariant all(i, 0, iter, !has(om.hiddenKeys, om.keys[i]) ==> visibleKeys[vcount(om, i)] == om.keys[i])
  loop 0: use vis(arr(om.keys), off(om.keys), dom(om.hiddenKeys), iter+1)
  loop 0: use all(n, 0, iter, vis_lt(arr(om.keys), off(om.keys), dom(om.hiddenKeys), n, iter))

func NewOrderedMap(keys, values)
  prop A01
  ensures result1 == nil ==> ominv(result0)
  ensures result1 == nil ==> alls(k, !has(result0.hiddenKeys, k))
  ensures result1 == nil ==> alls(k, has(result0.values, k) == has(values, k) && (has(values, k) ==> result0.values[k] == values[k]))
  ensures result1 == nil ==> len(keys) == len(values) && len(result0.visibleKeys) == len(keys) && all(i, 0, len(keys), result0.visibleKeys[i] == keys[i])
  ensures result1 == nil ==> fresh(result0) && fresh(result0.values) && fresh(result0.hiddenKeys)
  loop 0: invariant len(mapKeys) == iter
  loop 0: invariant all(i, 0, iter, mapKeys[i] == rangekey(i))
  loop 1: invariant all(i, 0, iter, mapKeys[i] == sortedKeys[i])
  useexit all(n, 0, len(keys)+1, vis_none(arr(result0.keys), off(result0.keys), dom(result0.hiddenKeys), n))

lemma vis_none(a Strs, o int, h StrSet, n int)
  prop A01
  requires 0 <= n && all(i, 0, n, !h[a[o+i]])
  induct n
  use vis(a, o, h, n)
  ensures vis(a, o, h, n) == n

lemma vis_surj(a Strs, o int, h StrSet, j int, n int)
  prop A01
  requires 0 <= n && 0 <= j && j < vis(a, o, h, n)
  induct n
  use vis(a, o, h, n)
  ensures ex(i, 0, n, !h[a[o+i]] && vis(a, o, h, i) == j)

lemma vis_ext(a Strs, o int, b Strs, p int, h StrSet, n int)
  prop A01
  requires 0 <= n && all(i, 0, n, a[o+i] == b[p+i])
  induct n
  use vis(a, o, h, n)
  use vis(b, p, h, n)
  ensures vis(a, o, h, n) == vis(b, p, h, n)

lemma vis_lt(a Strs, o int, h StrSet, i int, n int)
  prop A01
  requires 0 <= i && i < n && !h[a[o+i]]
  induct n from i+1
  use vis(a, o, h, n)
  use vis(a, o, h, i+1)
  use vis_pos(a, o, h, i)
  ensures 0 <= vis(a, o, h, i) && vis(a, o, h, i) < vis(a, o, h, n)

lemma vis_pos(a Strs, o int, h StrSet, n int)
  prop A01
  requires 0 <= n
  induct n
  use vis(a, o, h, n)
  ensures 0 <= vis(a, o, h, n)
