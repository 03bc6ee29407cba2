package netcdf/hdf5

// ---- group paths (H08): the canonical form is the non-empty components, joined by single slashes

// component i of the path, and how many there are (strings.Split)
fn comp(s string, i int) string
fn ncomp(s string) int
// how many of the first i components are not empty
opaque def nne(s string, i int) int = ite(i <= 0, 0, nne(s, i-1) + ite(comp(s, i-1) == "", 0, 1))
// the non-empty ones of the first i components, joined by slashes
opaque def canonp(s string, i int) string = ite(i <= 0, "", ite(comp(s, i-1) == "", canonp(s, i-1), ite(nne(s, i-1) == 0, comp(s, i-1), canonp(s, i-1) + "/" + comp(s, i-1))))
// n strings joined by slashes (strings.Join)
opaque def joins(a Strs, o int, n int) string = ite(n <= 0, "", ite(n == 1, a[o], joins(a, o, n-1) + "/" + a[o+n-1]))

lemma joins_ext(a Strs, o int, b Strs, p int, n int)
  prop H08
  requires 0 <= n && all(i, 0, n, a[o+i] == b[p+i])
  induct n
  use joins(a, o, n)
  use joins(b, p, n)
  ensures joins(a, o, n) == joins(b, p, n)

lemma nne_pos(s string, n int)
  prop H08
  requires 0 <= n
  induct n
  use nne(s, n)
  ensures 0 <= nne(s, n) && nne(s, n) <= n

extern func strings.Split(s, sep)
  requires sep == "/"
  ensures fresh(result) && len(result) == ncomp(s) && ncomp(s) >= 1
  ensures all(i, 0, len(result), result[i] == comp(s, i))

extern func strings.Join(elems, sep)
  requires sep == "/"
  ensures result == joins(arr(elems), off(elems), len(elems))

extern func strings.HasPrefix(s, prefix)
  ensures len(prefix) == 1 ==> result == (len(s) >= 1 && s[0] == prefix[0])

func canonicalizePath(s)
  prop H08
  use nne(s, 0)
  use canonp(s, 0)
  ensures len(s) >= 1 && s[0] == 47 ==> result == "/" + canonp(s, ncomp(s))
  ensures !(len(s) >= 1 && s[0] == 47) ==> result == "" + canonp(s, ncomp(s))
  loop 0: use nne(s, iter+1)
  loop 0: use canonp(s, iter+1)
  loop 0: use nne_pos(s, iter)
  loop 0: use joins(arr(nspl), off(nspl), 0)
  loop 0: stepuse joins(arr(nspl), off(nspl), len(nspl))
  loop 0: stepuse joins_ext(prev(arr(nspl)), prev(off(nspl)), arr(nspl), off(nspl), prev(len(nspl)))
  loop 0: invariant len(nspl) == nne(s, iter)
  loop 0: invariant joins(arr(nspl), off(nspl), len(nspl)) == canonp(s, iter)
