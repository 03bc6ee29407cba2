package netcdf/hdf5

// Bob Jenkins' lookup3 (hashlittle), as published; the words are u32 machine words.
def rotl4(x u32) u32 = (x << 4) | (x >> 28)
def rotl6(x u32) u32 = (x << 6) | (x >> 26)
def rotl8(x u32) u32 = (x << 8) | (x >> 24)
def rotl16(x u32) u32 = (x << 16) | (x >> 16)
def rotl19(x u32) u32 = (x << 19) | (x >> 13)
def rotl14(x u32) u32 = (x << 14) | (x >> 18)
def rotl11(x u32) u32 = (x << 11) | (x >> 21)
def rotl25(x u32) u32 = (x << 25) | (x >> 7)
def rotl24(x u32) u32 = (x << 24) | (x >> 8)

// mix(a,b,c)
def m1a(a u32, b u32, c u32) u32 = (a - c) ^ rotl4(c)
def m1c(a u32, b u32, c u32) u32 = c + b
def m2b(a u32, b u32, c u32) u32 = (b - m1a(a,b,c)) ^ rotl6(m1a(a,b,c))
def m2a(a u32, b u32, c u32) u32 = m1a(a,b,c) + m1c(a,b,c)
def m3c(a u32, b u32, c u32) u32 = (m1c(a,b,c) - m2b(a,b,c)) ^ rotl8(m2b(a,b,c))
def m3b(a u32, b u32, c u32) u32 = m2b(a,b,c) + m2a(a,b,c)
def m4a(a u32, b u32, c u32) u32 = (m2a(a,b,c) - m3c(a,b,c)) ^ rotl16(m3c(a,b,c))
def m4c(a u32, b u32, c u32) u32 = m3c(a,b,c) + m3b(a,b,c)
def m5b(a u32, b u32, c u32) u32 = (m3b(a,b,c) - m4a(a,b,c)) ^ rotl19(m4a(a,b,c))
def m5a(a u32, b u32, c u32) u32 = m4a(a,b,c) + m4c(a,b,c)
opaque def mixC(a u32, b u32, c u32) u32 = (m4c(a,b,c) - m5b(a,b,c)) ^ rotl4(m5b(a,b,c))
opaque def mixB(a u32, b u32, c u32) u32 = m5b(a,b,c) + m5a(a,b,c)
opaque def mixA(a u32, b u32, c u32) u32 = m5a(a,b,c)

// final(a,b,c)
def f1c(a u32, b u32, c u32) u32 = (c ^ b) - rotl14(b)
def f2a(a u32, b u32, c u32) u32 = (a ^ f1c(a,b,c)) - rotl11(f1c(a,b,c))
def f3b(a u32, b u32, c u32) u32 = (b ^ f2a(a,b,c)) - rotl25(f2a(a,b,c))
def f4c(a u32, b u32, c u32) u32 = (f1c(a,b,c) ^ f3b(a,b,c)) - rotl16(f3b(a,b,c))
def f5a(a u32, b u32, c u32) u32 = (f2a(a,b,c) ^ f4c(a,b,c)) - rotl4(f4c(a,b,c))
def f6b(a u32, b u32, c u32) u32 = (f3b(a,b,c) ^ f5a(a,b,c)) - rotl14(f5a(a,b,c))
opaque def finC(a u32, b u32, c u32) u32 = (f4c(a,b,c) ^ f6b(a,b,c)) - rotl24(f6b(a,b,c))

func rot(x, k)
  prop H03
  mode bv
  ensures k >= 1 && k <= 31 ==> result == ((x << k) | (x >> (32 - k)))

func mix(a, b, c)
  prop H03
  reveal mixA mixB mixC
  mode bv
  requires a != nil && b != nil && c != nil && a != b && a != c && b != c
  modifies *a, *b, *c
  ensures *a == mixA(old(*a), old(*b), old(*c))
  ensures *b == mixB(old(*a), old(*b), old(*c))
  ensures *c == mixC(old(*a), old(*b), old(*c))

func final(a, b, c)
  prop H03
  reveal finC
  mode bv
  requires a != nil && b != nil && c != nil && a != b && a != c && b != c
  modifies *a, *b, *c
  ensures *c == finC(old(*a), old(*b), old(*c))

// hashlittle over an array of words v starting at word o, n bytes still to go
def hashW(v Words, o Idx, n u32, a u32, b u32, c u32) u32 = \
  ite(ult(12, n), hashW(v, o + 3, n - 12, mixA(a + v[o], b + v[o+1], c + v[o+2]), mixB(a + v[o], b + v[o+1], c + v[o+2]), mixC(a + v[o], b + v[o+1], c + v[o+2])), \
  ite(n == 0, c, \
  finC(a + v[o], ite(ult(4, n), b + v[o+1], b), ite(ult(8, n), c + v[o+2], c))))

// hashW from the initial state, named for callers that work in mathematical integers
fn cksumW(v Words, o int, n int) int

func hashInts(vals, nBytes)
  prop H03
  mode bv
  requires nBytes == 0 ==> len(vals) == 0
  requires ule(uint64(nBytes), 4*uint64(len(vals)))
  requires len(vals) < 1<<40
  ensures result == hashW(arr(arg_vals), off(arg_vals), arg_nBytes, 0xdeadbeef + arg_nBytes, 0xdeadbeef + arg_nBytes, 0xdeadbeef + arg_nBytes)
  view result == cksumW(arr(arg_vals), off(arg_vals), arg_nBytes) && 0 <= result && result < 1<<32
  loop 0: invariant ule(uint64(nBytes), 4*uint64(len(vals)))
  loop 0: invariant len(vals) >= 0 && len(vals) <= len(arg_vals) && aref(vals) == aref(arg_vals)
  loop 0: invariant off(vals) + len(vals) == off(arg_vals) + len(arg_vals)
  loop 0: invariant nBytes == 0 ==> len(arg_vals) == 0
  loop 0: invariant hashW(arr(vals), off(vals), nBytes, a, b, c) == hashW(arr(arg_vals), off(arg_vals), arg_nBytes, 0xdeadbeef + arg_nBytes, 0xdeadbeef + arg_nBytes, 0xdeadbeef + arg_nBytes)
  loop 0: decreases int(nBytes)

// the 4 bytes at o as a little-endian word; bytes at distance >= n count as zero
opaque def wordAt(d Bytes, o Idx, n u32) u32 = uint32(d[o]) | ite(ult(1, n), uint32(d[o+1]) << 8, 0) | ite(ult(2, n), uint32(d[o+2]) << 16, 0) | ite(ult(3, n), uint32(d[o+3]) << 24, 0)

// hashlittle over the n bytes of d starting at o: the published algorithm on byte strings
def hashB(d Bytes, o Idx, n u32, a u32, b u32, c u32) u32 = \
  ite(ult(12, n), hashB(d, o + 12, n - 12, mixA(a + wordAt(d,o,n), b + wordAt(d,o+4,n-4), c + wordAt(d,o+8,n-8)), mixB(a + wordAt(d,o,n), b + wordAt(d,o+4,n-4), c + wordAt(d,o+8,n-8)), mixC(a + wordAt(d,o,n), b + wordAt(d,o+4,n-4), c + wordAt(d,o+8,n-8))), \
  ite(n == 0, c, \
  finC(a + wordAt(d,o,n), ite(ult(4, n), b + wordAt(d,o+4,n-4), b), ite(ult(8, n), c + wordAt(d,o+8,n-8), c))))

lemma words_bytes(v Words, ov Idx, d Bytes, od Idx, n u32, a u32, b u32, c u32)
  prop H03
  mode bv
  requires all(k, 0, 1<<32, 4*k < int(uint64(n)) ==> v[ov + k] == wordAt(d, od + 4*k, n - uint32(4*k)))
  induct n
  use words_bytes(v, ov + 3, d, od + 12, n - 12, mixA(a + v[ov], b + v[ov+1], c + v[ov+2]), mixB(a + v[ov], b + v[ov+1], c + v[ov+2]), mixC(a + v[ov], b + v[ov+1], c + v[ov+2]))
  ensures hashW(v, ov, n, a, b, c) == hashB(d, od, n, a, b, c)

// hashB of n bytes from o on, named for callers that work in mathematical integers
fn cksum(d Bytes, o int, n int) int

func checksum(data)
  prop H03
  mode bv
  reveal wordAt
  requires len(data) < 1<<32
  requires off(data) >= 0 && off(data) < 1<<40
  ensures result == hashB(arr(data), off(data), uint32(len(data)), 0xdeadbeef + uint32(len(data)), 0xdeadbeef + uint32(len(data)), 0xdeadbeef + uint32(len(data)))
  view result == cksum(arr(data), off(data), len(data)) && 0 <= result && result < 1<<32
  loop 0: invariant iter >= 0 && iter < len(data)/4
  loop 0: invariant len(vals) == (len(data)+3)/4 && off(vals) == 0
  loop 0: invariant all(k, 0, iter, vals[k] == wordAt(arr(data), off(data) + 4*k, uint32(len(data)) - uint32(4*k)))
  assertexit len(data) % 4 == 0 || vals[len(data)/4] == wordAt(arr(data), off(data) + 4*(len(data)/4), uint32(len(data)) - uint32(4*(len(data)/4)))
  assertexit all(k, 0, len(data)/4, vals[k] == wordAt(arr(data), off(data) + 4*k, uint32(len(data)) - uint32(4*k)))
  assertexit all(k, 0, 1<<32, 4*k < len(data) ==> vals[k] == wordAt(arr(data), off(data) + 4*k, uint32(len(data)) - uint32(4*k)))
  useexit words_bytes(arr(vals), 0, arr(data), off(data), uint32(len(data)), 0xdeadbeef + uint32(len(data)), 0xdeadbeef + uint32(len(data)), 0xdeadbeef + uint32(len(data)))
