package netcdf/hdf5

// ---- positions: quotients and remainders by a variable
opaque def dv(a int, m int) = div(a, m)

lemma dm(p int, m int)
  prop H04 H05
  requires m > 0 && p >= 0
  use qb_split(p, m)
  use dv(p, m)
  use md(p, m)
  ensures p == qb(dv(p, m), m) + md(p, m) && 0 <= md(p, m) && md(p, m) < m && dv(p, m) >= 0

lemma dm_of(r int, k int, m int)
  prop H04 H05
  requires m > 0 && 0 <= k && k < m
  use qdiv(r, k, m)
  use qb(r, m)
  use dv(qb(r, m) + k, m)
  use md(qb(r, m) + k, m)
  ensures dv(qb(r, m) + k, m) == r && md(qb(r, m) + k, m) == k

lemma qb_mono(a int, b int, c int)
  prop H04 H05
  requires 0 <= a && a <= b && c >= 0
  use mono_mul(a, b, c)
  use qb(a, c)
  use qb(b, c)
  ensures 0 <= qb(a, c) && qb(a, c) <= qb(b, c)

lemma qb_comm(a int, b int)
  prop H04 H05
  use qb(a, b)
  use qb(b, a)
  ensures qb(a, b) == qb(b, a)

lemma dv_lt(p int, k int, m int)
  prop H04 H05
  requires m > 0 && 0 <= p && k >= 0 && p < qb(k, m)
  use dm(p, m)
  use qb(dv(p, m), m)
  use qb(k, m)
  ensures dv(p, m) < k

lemma dv_iff(p int, k int, m int)
  prop H05
  requires m > 0 && 0 <= p && k >= 0
  use dm(p, m)
  use dv_lt(p, k, m)
  use qb_step(dv(p, m), m)
  use qb_mono(dv(p, m) + 1, k, m)
  ensures dv(p, m) < k <==> p < qb(k, m)

// ---- the shuffle filter: byte i of element j was at i*nelems+j
func unshuffle(val, n)
  prop H04
  requires n < 1<<31
  modifies elems(val)
  let ne = dv(len(val), n)
  use dv(len(val), n)
  use qb(dv(len(val), n), n)
  use all(p, dm(p, n))
  ensures n <= 1 ==> all(p, 0, len(val), val[p] == old(val[p]))
  ensures n > 1 ==> all(p, 0, qb(ne, n), val[p] == old(val[qb(md(p, n), ne) + dv(p, n)]))
  ensures n > 1 ==> all(p, qb(ne, n), len(val), val[p] == old(val[p]))
  ensures all(i, (i < off(val) || i >= off(val) + len(val)) ==> arr(val)[i] == old(arr(val))[i])
  loop 0: use dm(len(val), n)
  loop 0: use all(p, dm(p, n))
  loop 0: use all(p, dv_lt(p, ne, n))
  loop 0: use qb_comm(ne, n)
  loop 0: invariant len(tmp) == len(val) && fresh(tmp) && nelems == ne
  loop 0: invariant all(p, 0, qb(ne, n), md(p, n) < iter ==> tmp[p] == val[qb(md(p, n), ne) + dv(p, n)])
  loop 1: use dm(len(val), n)
  loop 1: use qb(iter, n)
  loop 1: use qb(i, ne)
  loop 1: use qb_step(iter, n)
  loop 1: use qb_step(i, ne)
  loop 1: use qb_mono(iter+1, ne, n)
  loop 1: use qb_mono(i+1, n, ne)
  loop 1: use dm_of(iter, i, n)
  loop 1: use qb_comm(ne, n)
  loop 1: use all(p, dm(p, n))
  loop 1: invariant all(p, 0, qb(ne, n), (md(p, n) < i || md(p, n) == i && dv(p, n) < iter) ==> tmp[p] == val[qb(md(p, n), ne) + dv(p, n)])

// ---- the size of an array, and where a chunk goes in it
opaque def prod(D Bytes, k int, m int, s int) = ite(m <= 0, s, qb(D[k], prod(D, k+1, m-1, s)))

lemma prod_pos(D Bytes, k int, m int, s int)
  prop H05
  requires m >= 0 && s >= 1 && all(i, k, k+m, D[i] >= 1)
  induct m
  use prod(D, k, m, s)
  use prod_pos(D, k+1, m-1, s)
  use qb_mono(1, D[k], prod(D, k+1, m-1, s))
  use qb(1, prod(D, k+1, m-1, s))
  ensures prod(D, k, m, s) >= s && (m > 0 ==> prod(D, k, m, s) >= prod(D, k+1, m-1, s))

lemma prod_mul(D Bytes, k int, m int, s int, d int)
  prop H05
  requires m >= 0
  induct m
  use prod(D, k, m, s)
  use prod(D, k, m, qb(d, s))
  use prod_mul(D, k+1, m-1, s, d)
  use qb(d, prod(D, k+1, m-1, s))
  use qb(D[k], prod(D, k+1, m-1, s))
  use qb(D[k], qb(d, prod(D, k+1, m-1, s)))
  use qb(d, qb(D[k], prod(D, k+1, m-1, s)))
  ensures prod(D, k, m, qb(d, s)) == qb(d, prod(D, k, m, s))

func product(dims, size)
  prop H05
  requires size >= 1 && all(i, 0, len(dims), dims[i] >= 1)
  requires prod(arr(dims), off(dims), len(dims), size) < 1<<62
  ensures result == prod(arr(dims), off(dims), len(dims), init(size))
  use prod(arr(dims), off(dims), 0, size)
  loop 0: use prod(arr(dims), off(dims) + iter, len(dims) - iter, size)
  loop 0: use prod_mul(arr(dims), off(dims) + iter + 1, len(dims) - iter - 1, size, dims[iter])
  loop 0: use prod_pos(arr(dims), off(dims) + iter + 1, len(dims) - iter - 1, qb(dims[iter], size))
  loop 0: use qb(dims[iter], size)
  loop 0: use qb_mono(1, dims[iter], size)
  loop 0: invariant size >= 1 && prod(arr(dims), off(dims) + iter, len(dims) - iter, size) == prod(arr(dims), off(dims), len(dims), init(size))

// where position p of the data is in the chunk, or -1
opaque def src(p int, D Bytes, dk int, L Bytes, lk int, O Bytes, ok int, m int, s int) = ite(m <= 0, p, \
  ite(O[ok] <= dv(p, prod(D, dk+1, m-1, s)) && dv(p, prod(D, dk+1, m-1, s)) < O[ok] + L[lk] && \
    src(md(p, prod(D, dk+1, m-1, s)), D, dk+1, L, lk+1, O, ok+1, m-1, s) >= 0, \
    qb(dv(p, prod(D, dk+1, m-1, s)) - O[ok], prod(L, lk+1, m-1, s)) + src(md(p, prod(D, dk+1, m-1, s)), D, dk+1, L, lk+1, O, ok+1, m-1, s), -1))

lemma src1(p int, D Bytes, dk int, L Bytes, lk int, O Bytes, ok int, m int, s int)
  prop H05
  requires m == 1 && s >= 1 && p >= 0 && O[ok] >= 0 && L[lk] >= 0
  use src(p, D, dk, L, lk, O, ok, m, s)
  use prod(D, dk+1, m-1, s)
  use prod(L, lk+1, m-1, s)
  use src(md(p, prod(D, dk+1, m-1, s)), D, dk+1, L, lk+1, O, ok+1, m-1, s)
  use dm(p, s)
  use dm(p, prod(D, dk+1, m-1, s))
  use qb(dv(p, s) - O[ok], s)
  use qb(dv(p, s), s)
  use qb(O[ok], s)
  use dv_iff(p, O[ok], s)
  use dv_iff(p, O[ok] + L[lk], s)
  use qb_mono(O[ok], dv(p, s), s)
  use qb_mono(O[ok] + L[lk], dv(p, s), s)
  ensures src(p, D, dk, L, lk, O, ok, m, s) == ite(qb(O[ok], s) <= p && p < qb(O[ok] + L[lk], s), p - qb(O[ok], s), -1)

func copyChunk(data, chunk, offsets, dims, layout, size)
  prop H05
  requires size >= 1 && len(offsets) == len(dims) && len(layout) == len(dims)
  requires all(i, 0, len(dims), dims[i] >= 1 && layout[i] >= 1 && dims[i] < 1<<40 && layout[i] < 1<<40 && offsets[i] < 1<<62)
  requires len(data) == prod(arr(dims), off(dims), len(dims), size) && len(data) < 1<<61
  requires len(chunk) == prod(arr(layout), off(layout), len(layout), size) && len(chunk) < 1<<61
  requires aref(data) != aref(chunk)
  modifies elems(data)
  let m = len(dims)
  let D = arr(dims)
  let dk = off(dims)
  let L = arr(layout)
  let lk = off(layout)
  let O = arr(offsets)
  let ok = off(offsets)
  let ds = prod(arr(dims), off(dims)+1, len(dims)-1, size)
  let cs = prod(arr(layout), off(layout)+1, len(dims)-1, size)
  use prod_pos(D, dk+1, m-1, size)
  use prod_pos(L, lk+1, m-1, size)
  use prod(D, dk, m, size)
  use prod(L, lk, m, size)
  use prod(D, dk+1, m-1, size)
  use prod(L, lk+1, m-1, size)
  use all(p, src(p, D, dk, L, lk, O, ok, m, size))
  use all(p, dm(p, ds))
  use all(p, dv_iff(p, dims[0], ds))
  use all(p, dv_iff(p, offsets[0], ds))
  use qb(offsets[0], size)
  assertexit m > 0 ==> all(p, 0, len(data), dv(p, ds) < dims[0])
  assertexit m > 0 && offsets[0] >= dims[0] ==> all(p, 0, len(data), src(p, D, dk, L, lk, O, ok, m, size) == -1)
  useexit all(p, src1(p, D, dk, L, lk, O, ok, m, size))
  ensures all(p, 0, len(data), data[p] == ite(src(p, D, dk, L, lk, O, ok, m, size) >= 0, chunk[src(p, D, dk, L, lk, O, ok, m, size)], old(data[p])))
  ensures all(i, (i < off(data) || i >= off(data) + len(data)) ==> arr(data)[i] == old(arr(data))[i])
  let nn = min(layout[0], dims[0] - offsets[0])
  use prod_pos(D, dk, m, size)
  use prod_pos(L, lk, m, size)
  use qb(nn, size)
  use qb(offsets[0] + nn, size)
  use qb_mono(nn, layout[0], size)
  use qb_mono(offsets[0] + nn, dims[0], size)
  use qb_mono(0, offsets[0], size)
  use all(p, dv_iff(p, offsets[0] + nn, ds))
  use qb(layout[0], size)
  use qb(offsets[0] + layout[0], size)
  loop 0: use qb(offsets[0] + iter, ds)
  loop 0: use qb(offsets[0] + iter + 1, ds)
  loop 0: use qb_step(offsets[0] + iter, ds)
  loop 0: use qb_mono(offsets[0] + iter + 1, dims[0], ds)
  loop 0: use qb_mono(0, offsets[0] + iter, ds)
  loop 0: use qb(iter, cs)
  loop 0: use qb(iter + 1, cs)
  loop 0: use qb_step(iter, cs)
  loop 0: use qb_mono(iter + 1, layout[0], cs)
  loop 0: use qb_mono(0, iter, cs)
  loop 0: use all(p, dv_iff(p, offsets[0] + iter, ds))
  loop 0: use all(p, dv_iff(p, offsets[0] + iter + 1, ds))
  loop 0: step all(q, 0, ds, data[qb(offsets[0] + iter - 1, ds) + q] == ite(src(q, D, dk+1, L, lk+1, O, ok+1, m-1, size) >= 0, chunk[qb(iter - 1, cs) + src(q, D, dk+1, L, lk+1, O, ok+1, m-1, size)], prev(arr(data))[off(data) + qb(offsets[0] + iter - 1, ds) + q]))
  loop 0: step all(p, 0, len(data), dv(p, ds) == offsets[0] + iter - 1 ==> p == qb(offsets[0] + iter - 1, ds) + md(p, ds) && 0 <= md(p, ds) && md(p, ds) < ds)
  loop 0: step all(p, 0, len(data), dv(p, ds) != offsets[0] + iter - 1 ==> data[p] == prev(data[p]))
  loop 0: step all(p, 0, len(data), dv(p, ds) == offsets[0] + iter - 1 ==> data[p] == ite(src(p, D, dk, L, lk, O, ok, m, size) >= 0, chunk[src(p, D, dk, L, lk, O, ok, m, size)], prev(data[p])))
  loop 0: invariant all(p, 0, len(data), data[p] == ite(dv(p, ds) < offsets[0] + iter && src(p, D, dk, L, lk, O, ok, m, size) >= 0, chunk[src(p, D, dk, L, lk, O, ok, m, size)], old(data[p])))
  loop 0: invariant all(i, (i < off(data) || i >= off(data) + len(data)) ==> arr(data)[i] == old(arr(data))[i])
