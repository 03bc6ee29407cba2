// h5tool: the HDF5 C library as an independent writer and reader.
// Commands come on stdin, one per line; every reply ends with a line "." (or "!text" on error, then ".").
#include <hdf5.h>
#include <hdf5_hl.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <ctype.h>

static hid_t types[4096];
static hid_t file = -1;
static char *toks; // rest of the line
static int bad;
static char err[4096];
static hid_t lcpl = -1;

static herr_t why(unsigned n, const H5E_error2_t *e, void *d) { (void)d; size_t l = strlen(err); if (n < 6 && l < 3000) snprintf(err + l, 400, " | %s: %s", e->func_name, e->desc); return 0; }
static void fail_(const char *s) { if (!bad) { bad = 1; snprintf(err, sizeof err, "%s", s); H5Ewalk2(H5E_DEFAULT, H5E_WALK_UPWARD, why, NULL); } }
#define CK(x) do { if ((x) < 0) fail_(#x); } while (0)

static char *tok(void) {
  while (*toks == ' ') toks++;
  if (!*toks) { fail_("missing token"); return ""; }
  char *s = toks;
  while (*toks && *toks != ' ') toks++;
  if (*toks) *toks++ = 0;
  return s;
}
static long long num(void) { return strtoll(tok(), 0, 10); }
static int hexd(int c) { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; }
// names: percent-encoded, empty is %
static char *name(void) {
  char *s = tok(), *o = malloc(strlen(s) + 1), *q = o;
  for (; *s; s++) {
    if (*s == '%' && isxdigit(s[1]) && isxdigit(s[2])) { *q++ = hexd(s[1]) * 16 + hexd(s[2]); s += 2; }
    else if (*s == '%') {}
    else *q++ = *s;
  }
  *q = 0;
  return o; // leaked: short-lived process
}
static void pname(const char *s) {
  if (!*s) putchar('%');
  for (; *s; s++)
    if (isalnum((unsigned char)*s) || *s == '_' || *s == '/') putchar(*s);
    else printf("%%%02x", (unsigned char)*s);
}

static int isvlstr(hid_t t) { return H5Tget_class(t) == H5T_STRING && H5Tis_variable_str(t) > 0; }

// read one element of type t from the tokens into p
static void getval(hid_t t, char *p) {
  size_t sz = H5Tget_size(t);
  if (bad) return;
  switch (H5Tget_class(t)) {
  case H5T_COMPOUND: {
    int n = H5Tget_nmembers(t);
    memset(p, 0, sz);
    for (int i = 0; i < n; i++) { hid_t m = H5Tget_member_type(t, i); getval(m, p + H5Tget_member_offset(t, i)); H5Tclose(m); }
    return; }
  case H5T_ARRAY: {
    hsize_t d[32]; int r = H5Tget_array_dims2(t, d); size_t n = 1;
    for (int i = 0; i < r; i++) n *= d[i];
    hid_t b = H5Tget_super(t); size_t bs = H5Tget_size(b);
    for (size_t i = 0; i < n; i++) getval(b, p + i * bs);
    H5Tclose(b);
    return; }
  case H5T_VLEN: {
    hvl_t v; v.len = num(); hid_t b = H5Tget_super(t); size_t bs = H5Tget_size(b);
    v.p = v.len ? malloc(v.len * bs) : NULL;
    for (size_t i = 0; i < v.len; i++) getval(b, (char *)v.p + i * bs);
    memcpy(p, &v, sizeof v);
    H5Tclose(b);
    return; }
  case H5T_REFERENCE: {
    char *n = name(); hobj_ref_t r;
    CK(H5Rcreate(&r, file, n, H5R_OBJECT, -1));
    memcpy(p, &r, sizeof r);
    return; }
  default:
    if (isvlstr(t)) {
      char *s = tok();
      if (*s != 's') { memset(p, 0, sizeof(char *)); return; }
      size_t n = strlen(s + 1) / 2; char *o = malloc(n + 1);
      for (size_t i = 0; i < n; i++) o[i] = hexd(s[1 + 2 * i]) * 16 + hexd(s[2 + 2 * i]);
      o[n] = 0;
      memcpy(p, &o, sizeof o);
      return;
    }
    char *s = tok();
    if (strlen(s) != 2 * sz) { fail_("value of the wrong size"); return; }
    for (size_t i = 0; i < sz; i++) p[i] = hexd(s[2 * i]) * 16 + hexd(s[2 * i + 1]);
  }
}

static void putval(hid_t t, char *p, hid_t f) {
  size_t sz = H5Tget_size(t);
  switch (H5Tget_class(t)) {
  case H5T_COMPOUND: {
    int n = H5Tget_nmembers(t);
    for (int i = 0; i < n; i++) { hid_t m = H5Tget_member_type(t, i); putval(m, p + H5Tget_member_offset(t, i), f); H5Tclose(m); }
    return; }
  case H5T_ARRAY: {
    hsize_t d[32]; int r = H5Tget_array_dims2(t, d); size_t n = 1;
    for (int i = 0; i < r; i++) n *= d[i];
    hid_t b = H5Tget_super(t); size_t bs = H5Tget_size(b);
    for (size_t i = 0; i < n; i++) putval(b, p + i * bs, f);
    H5Tclose(b);
    return; }
  case H5T_VLEN: {
    hvl_t v; memcpy(&v, p, sizeof v);
    hid_t b = H5Tget_super(t); size_t bs = H5Tget_size(b);
    printf(" %zu", v.len);
    for (size_t i = 0; i < v.len; i++) putval(b, (char *)v.p + i * bs, f);
    H5Tclose(b);
    return; }
  case H5T_REFERENCE: {
    char nm[4096]; hobj_ref_t r; memcpy(&r, p, sizeof r);
    hid_t o = H5Rdereference2(f, H5P_DEFAULT, H5R_OBJECT, &r);
    if (o < 0) { printf(" !badref"); return; }
    nm[0] = 0; H5Iget_name(o, nm, sizeof nm); H5Oclose(o);
    putchar(' '); pname(nm);
    return; }
  default:
    if (isvlstr(t)) {
      char *s; memcpy(&s, p, sizeof s);
      if (!s) { printf(" -"); return; }
      printf(" s");
      for (; *s; s++) printf("%02x", (unsigned char)*s);
      return;
    }
    putchar(' ');
    for (size_t i = 0; i < sz; i++) printf("%02x", (unsigned char)p[i]);
  }
}

static void ptype(hid_t t) {
  size_t sz = H5Tget_size(t);
  switch (H5Tget_class(t)) {
  case H5T_INTEGER: printf("i%zu%c%c", sz, H5Tget_sign(t) == H5T_SGN_2 ? 's' : 'u', H5Tget_order(t) == H5T_ORDER_BE ? 'B' : 'L'); 
    if (H5Tget_precision(t) != 8 * sz || H5Tget_offset(t) != 0) printf("!prec"); break;
  case H5T_FLOAT: {
    size_t spos, epos, esize, mpos, msize;
    printf("f%zu%c", sz, H5Tget_order(t) == H5T_ORDER_BE ? 'B' : 'L');
    H5Tget_fields(t, &spos, &epos, &esize, &mpos, &msize);
    if (H5Tget_precision(t) != 8 * sz || H5Tget_offset(t) != 0) printf("!prec");
    if (sz == 4 && !(spos == 31 && epos == 23 && esize == 8 && mpos == 0 && msize == 23 && H5Tget_ebias(t) == 127)) printf("!fields");
    if (sz == 8 && !(spos == 63 && epos == 52 && esize == 11 && mpos == 0 && msize == 52 && H5Tget_ebias(t) == 1023)) printf("!fields");
    if (H5Tget_norm(t) != H5T_NORM_IMPLIED) printf("!norm");
    break; }
  case H5T_STRING: if (isvlstr(t)) printf("S"); else printf("s%zu", sz); break;
  case H5T_BITFIELD: printf("b%zu", sz); break;
  case H5T_OPAQUE: printf("o%zu", sz); break;
  case H5T_REFERENCE: printf("r"); break;
  case H5T_VLEN: { hid_t b = H5Tget_super(t); printf("v("); ptype(b); printf(")"); H5Tclose(b); break; }
  case H5T_ARRAY: { hsize_t d[32]; int r = H5Tget_array_dims2(t, d); printf("a(");
    for (int i = 0; i < r; i++) printf("%llu,", (unsigned long long)d[i]);
    hid_t b = H5Tget_super(t); ptype(b); printf(")"); H5Tclose(b); break; }
  case H5T_ENUM: { hid_t b = H5Tget_super(t); printf("e("); ptype(b); H5Tclose(b);
    int n = H5Tget_nmembers(t);
    for (int i = 0; i < n; i++) { char *nm = H5Tget_member_name(t, i); char v[16]; H5Tget_member_value(t, i, v);
      printf(";"); pname(nm); printf("="); for (size_t k = 0; k < sz; k++) printf("%02x", (unsigned char)v[k]); H5free_memory(nm); }
    printf(")"); break; }
  case H5T_COMPOUND: { int n = H5Tget_nmembers(t); printf("c%zu(", sz);
    for (int i = 0; i < n; i++) { char *nm = H5Tget_member_name(t, i); hid_t m = H5Tget_member_type(t, i);
      pname(nm); printf("@%zu:", H5Tget_member_offset(t, i)); ptype(m); printf(";"); H5Tclose(m); H5free_memory(nm); }
    printf(")"); break; }
  default: printf("?%d", H5Tget_class(t));
  }
}

// in-memory type: same layout, variable-length strings and sequences as the library defines them
static hid_t memtype(hid_t t) { return H5Tcopy(t); }

static void pspace(hid_t s) {
  H5S_class_t c = H5Sget_simple_extent_type(s);
  if (c == H5S_NULL) { printf(" null"); return; }
  hsize_t d[32], m[32]; int r = H5Sget_simple_extent_dims(s, d, m);
  printf(" %d", r);
  for (int i = 0; i < r; i++) printf(" %llu", (unsigned long long)d[i]);
}

static herr_t dattr(hid_t o, const char *nm, const H5A_info_t *ai, void *data) {
  hid_t a = H5Aopen(o, nm, H5P_DEFAULT);
  if (a < 0) { printf("attr "); pname(nm); printf(" !open\n"); return 0; }
  hid_t t = H5Aget_type(a), s = H5Aget_space(a), m = memtype(t);
  printf("attr "); pname(nm); putchar(' '); ptype(t); pspace(s); printf(" :");
  hssize_t n = H5Sget_simple_extent_npoints(s);
  char *b = calloc(n > 0 ? n : 1, H5Tget_size(m) + 16);
  if (n > 0) {
    if (H5Aread(a, m, b) < 0) printf(" !read");
    else for (hssize_t i = 0; i < n; i++) putval(m, b + i * H5Tget_size(m), o);
  }
  printf("\n");
  free(b);
  H5Tclose(m); H5Tclose(t); H5Sclose(s); H5Aclose(a);
  return 0;
}

static herr_t dlink(hid_t g, const char *nm, const H5L_info_t *li, void *data);

static void dobj(hid_t o, const char *path) {
  H5I_type_t it = H5Iget_type(o);
  if (it == H5I_GROUP) {
    printf("group "); pname(path); printf("\n");
    H5Aiterate2(o, H5_INDEX_NAME, H5_ITER_INC, NULL, dattr, NULL);
    if (H5Literate(o, H5_INDEX_NAME, H5_ITER_INC, NULL, dlink, (void *)path) < 0) printf("!iterate\n");
  } else if (it == H5I_DATASET) {
    hid_t t = H5Dget_type(o), s = H5Dget_space(o), m = memtype(t);
    printf("dset "); pname(path); putchar(' '); ptype(t); pspace(s); printf(" :");
    hssize_t n = H5Sget_simple_extent_npoints(s);
    char *b = calloc(n > 0 ? n : 1, H5Tget_size(m) + 16);
    if (n > 0) {
      if (H5Dread(o, m, H5S_ALL, H5S_ALL, H5P_DEFAULT, b) < 0) printf(" !read");
      else for (hssize_t i = 0; i < n; i++) putval(m, b + i * H5Tget_size(m), o);
    }
    printf("\n");
    free(b);
    H5Aiterate2(o, H5_INDEX_NAME, H5_ITER_INC, NULL, dattr, NULL);
    H5Tclose(m); H5Tclose(t); H5Sclose(s);
  } else if (it == H5I_DATATYPE) {
    printf("type "); pname(path); putchar(' '); ptype(o); printf("\n");
  }
}
static herr_t dlink(hid_t g, const char *nm, const H5L_info_t *li, void *data) {
  const char *base = data; char *p = malloc(strlen(base) + strlen(nm) + 2);
  sprintf(p, "%s%s%s", base, strcmp(base, "/") ? "/" : "", nm);
  hid_t o = H5Oopen(g, nm, H5P_DEFAULT);
  if (o < 0) { printf("!open "); pname(p); printf("\n"); }
  else { dobj(o, p); H5Oclose(o); }
  free(p);
  return 0;
}

static void deftype(void) {
  int n = num(); char *k = tok(); hid_t t = -1;
  if (!strcmp(k, "int")) { // size sign order
    int sz = num(); char *s = tok(), *o = tok();
    hid_t b = sz == 1 ? H5T_STD_I8LE : sz == 2 ? H5T_STD_I16LE : sz == 4 ? H5T_STD_I32LE : H5T_STD_I64LE;
    t = H5Tcopy(b); CK(H5Tset_sign(t, *s == 'u' ? H5T_SGN_NONE : H5T_SGN_2)); CK(H5Tset_order(t, *o == 'B' ? H5T_ORDER_BE : H5T_ORDER_LE));
  } else if (!strcmp(k, "float")) {
    int sz = num(); char *o = tok();
    t = H5Tcopy(sz == 4 ? (*o == 'B' ? H5T_IEEE_F32BE : H5T_IEEE_F32LE) : (*o == 'B' ? H5T_IEEE_F64BE : H5T_IEEE_F64LE));
  } else if (!strcmp(k, "str")) { // size pad cset
    t = H5Tcopy(H5T_C_S1); CK(H5Tset_size(t, num())); char *p = tok(); CK(H5Tset_strpad(t, *p == 't' ? H5T_STR_NULLTERM : *p == 'n' ? H5T_STR_NULLPAD : H5T_STR_SPACEPAD)); CK(H5Tset_cset(t, num() ? H5T_CSET_UTF8 : H5T_CSET_ASCII));
  } else if (!strcmp(k, "vstr")) { t = H5Tcopy(H5T_C_S1); CK(H5Tset_size(t, H5T_VARIABLE)); CK(H5Tset_cset(t, num() ? H5T_CSET_UTF8 : H5T_CSET_ASCII));
  } else if (!strcmp(k, "enum")) { hid_t b = types[num()]; t = H5Tenum_create(b); int m = num(); char v[16];
    for (int i = 0; i < m; i++) { char *nm = name(); getval(b, v); CK(H5Tenum_insert(t, nm, v)); }
  } else if (!strcmp(k, "opaque")) { t = H5Tcreate(H5T_OPAQUE, num()); CK(H5Tset_tag(t, name()));
  } else if (!strcmp(k, "bits")) { int sz = num(); t = H5Tcopy(sz == 1 ? H5T_STD_B8LE : H5T_STD_B32LE);
  } else if (!strcmp(k, "compound")) { size_t sz = num(); int m = num(); t = H5Tcreate(H5T_COMPOUND, sz);
    for (int i = 0; i < m; i++) { char *nm = name(); size_t off = num(); CK(H5Tinsert(t, nm, off, types[num()])); }
  } else if (!strcmp(k, "array")) { hid_t b = types[num()]; int r = num(); hsize_t d[32]; for (int i = 0; i < r; i++) d[i] = num(); t = H5Tarray_create2(b, r, d);
  } else if (!strcmp(k, "vlen")) { t = H5Tvlen_create(types[num()]);
  } else if (!strcmp(k, "ref")) { t = H5Tcopy(H5T_STD_REF_OBJ);
  } else fail_("unknown type kind");
  CK(t);
  types[n] = t;
}

static hid_t space(hsize_t *d, int *rk, int withmax) {
  int r = num(); hsize_t m[32];
  if (r < 0) { *rk = 1; d[0] = 0; return H5Screate(H5S_NULL); }
  for (int i = 0; i < r; i++) d[i] = num();
  if (withmax) for (int i = 0; i < r; i++) { long long v = num(); m[i] = v < 0 ? H5S_UNLIMITED : (hsize_t)v; }
  *rk = r;
  return r == 0 ? H5Screate(H5S_SCALAR) : H5Screate_simple(r, d, withmax ? m : NULL);
}

static char *values(hid_t t, hssize_t n) {
  size_t sz = H5Tget_size(t); char *b = calloc(n > 0 ? n : 1, sz + 16);
  for (hssize_t i = 0; i < n && !bad; i++) getval(t, b + i * sz);
  return b;
}

static hid_t openobj(void) { hid_t o = H5Oopen(file, name(), H5P_DEFAULT); CK(o); return o; }

static void command(char *c) {
  if (!strcmp(c, "create")) {
    char *p = name(); char *v = tok(); int track = num(); hid_t fa = H5Pcreate(H5P_FILE_ACCESS), fc = H5Pcreate(H5P_FILE_CREATE);
    if (!strcmp(v, "old")) CK(H5Pset_libver_bounds(fa, H5F_LIBVER_EARLIEST, H5F_LIBVER_V18));
    else if (!strcmp(v, "v18")) CK(H5Pset_libver_bounds(fa, H5F_LIBVER_V18, H5F_LIBVER_V18));
    else CK(H5Pset_libver_bounds(fa, H5F_LIBVER_LATEST, H5F_LIBVER_LATEST));
    if (track) { CK(H5Pset_link_creation_order(fc, H5P_CRT_ORDER_TRACKED | H5P_CRT_ORDER_INDEXED)); CK(H5Pset_attr_creation_order(fc, H5P_CRT_ORDER_TRACKED | H5P_CRT_ORDER_INDEXED)); }
    int mc = num(), md = num(), ac = num(), ad = num(); long ub = num();
    if (mc >= 0) CK(H5Pset_link_phase_change(fc, mc, md));
    if (ac >= 0) CK(H5Pset_attr_phase_change(fc, ac, ad));
    if (ub > 0) CK(H5Pset_userblock(fc, ub));
    memset(types, 0, sizeof types);
    file = H5Fcreate(p, H5F_ACC_TRUNC, fc, fa); CK(file); H5Pclose(fa); H5Pclose(fc);
  } else if (!strcmp(c, "close")) { 
    for (int i = 0; i < 4096; i++) if (types[i] > 0) { H5Tclose(types[i]); types[i] = 0; }
    CK(H5Fclose(file)); file = -1;
  } else if (!strcmp(c, "type")) deftype();
  else if (!strcmp(c, "commit")) { int n = num(); CK(H5Tcommit2(file, name(), types[n], lcpl, H5P_DEFAULT, H5P_DEFAULT)); }
  else if (!strcmp(c, "group")) { // path track linkcompact linkdense attrcompact attrdense
    char *p = name(); int track = num(); hid_t gc = H5Pcreate(H5P_GROUP_CREATE);
    if (track) { CK(H5Pset_link_creation_order(gc, H5P_CRT_ORDER_TRACKED | H5P_CRT_ORDER_INDEXED)); CK(H5Pset_attr_creation_order(gc, H5P_CRT_ORDER_TRACKED | H5P_CRT_ORDER_INDEXED)); }
    int a = num(), b = num(), ac = num(), ad = num();
    if (a >= 0) CK(H5Pset_link_phase_change(gc, a, b));
    if (ac >= 0) CK(H5Pset_attr_phase_change(gc, ac, ad));
    hid_t g = H5Gcreate2(file, p, lcpl, gc, H5P_DEFAULT); CK(g); H5Gclose(g); H5Pclose(gc);
  } else if (!strcmp(c, "dset")) { // path type rank dims max layout [chunk] nfilters f.. fill track attrcompact attrdense
    char *p = name(); hid_t t = types[num()]; hsize_t d[32]; int r; hid_t s = space(d, &r, 1); hid_t dc = H5Pcreate(H5P_DATASET_CREATE);
    char *l = tok();
    if (!strcmp(l, "compact")) CK(H5Pset_layout(dc, H5D_COMPACT));
    else if (!strcmp(l, "contig")) CK(H5Pset_layout(dc, H5D_CONTIGUOUS));
    else { hsize_t ch[32]; for (int i = 0; i < r; i++) ch[i] = num(); CK(H5Pset_chunk(dc, r, ch)); }
    int nf = num();
    for (int i = 0; i < nf; i++) { char *f = tok();
      if (*f == 's') CK(H5Pset_shuffle(dc)); else if (*f == 'd') CK(H5Pset_deflate(dc, f[1] ? f[1] - '0' : 6)); else CK(H5Pset_fletcher32(dc)); }
    char *fl = tok();
    if (!strcmp(fl, "undef")) CK(H5Pset_fill_value(dc, t, NULL));
    else if (!strcmp(fl, "value")) { char *b = values(t, 1); CK(H5Pset_fill_value(dc, t, b)); }
    char *al = tok();
    if (!strcmp(al, "early")) CK(H5Pset_alloc_time(dc, H5D_ALLOC_TIME_EARLY)); else if (!strcmp(al, "late")) CK(H5Pset_alloc_time(dc, H5D_ALLOC_TIME_LATE)); else if (!strcmp(al, "incr")) CK(H5Pset_alloc_time(dc, H5D_ALLOC_TIME_INCR));
    char *ft = tok();
    if (!strcmp(ft, "never")) CK(H5Pset_fill_time(dc, H5D_FILL_TIME_NEVER)); else if (!strcmp(ft, "alloc")) CK(H5Pset_fill_time(dc, H5D_FILL_TIME_ALLOC));
    int track = num(), ac = num(), ad = num();
    if (track) CK(H5Pset_attr_creation_order(dc, H5P_CRT_ORDER_TRACKED | H5P_CRT_ORDER_INDEXED));
    if (ac >= 0) CK(H5Pset_attr_phase_change(dc, ac, ad));
    hid_t ds = H5Dcreate2(file, p, t, s, lcpl, dc, H5P_DEFAULT); CK(ds); H5Dclose(ds); H5Pclose(dc); H5Sclose(s);
  } else if (!strcmp(c, "write")) { // path start.. count.. data
    char *p = name(); hid_t ds = H5Dopen2(file, p, H5P_DEFAULT); CK(ds); hid_t t = H5Dget_type(ds), s = H5Dget_space(ds);
    int r = H5Sget_simple_extent_ndims(s); hsize_t st[32], ct[32]; hssize_t n = 1;
    for (int i = 0; i < r; i++) st[i] = num();
    for (int i = 0; i < r; i++) { ct[i] = num(); n *= ct[i]; }
    hid_t m = r ? H5Screate_simple(r, ct, NULL) : H5Screate(H5S_SCALAR);
    if (r) CK(H5Sselect_hyperslab(s, H5S_SELECT_SET, st, NULL, ct, NULL));
    char *b = values(t, n);
    if (!bad) CK(H5Dwrite(ds, t, m, s, H5P_DEFAULT, b));
    H5Sclose(m); H5Sclose(s); H5Tclose(t); H5Dclose(ds); free(b);
  } else if (!strcmp(c, "wchunk")) { // path rank offset.. mask hex
    hid_t ds = H5Dopen2(file, name(), H5P_DEFAULT); CK(ds); int r = num(); hsize_t o[32]; for (int i = 0; i < r; i++) o[i] = num();
    uint32_t mask = num(); char *h = tok(); size_t n = strlen(h) / 2; char *b = malloc(n + 1);
    for (size_t i = 0; i < n; i++) b[i] = hexd(h[2 * i]) * 16 + hexd(h[2 * i + 1]);
    CK(H5Dwrite_chunk(ds, H5P_DEFAULT, mask, o, n, b)); free(b); H5Dclose(ds);
  } else if (!strcmp(c, "extend")) {
    hid_t ds = H5Dopen2(file, name(), H5P_DEFAULT); CK(ds); int r = num(); hsize_t d[32]; for (int i = 0; i < r; i++) d[i] = num();
    CK(H5Dset_extent(ds, d)); H5Dclose(ds);
  } else if (!strcmp(c, "attr")) { // objpath name type rank dims data
    hid_t o = openobj(); char *nm = name(); hid_t t = types[num()]; hsize_t d[32]; int r; 
    hid_t s = space(d, &r, 0); hssize_t n = 1; for (int i = 0; i < r; i++) n *= d[i];
    char *b = values(t, n); hid_t a = H5Acreate2(o, nm, t, s, H5P_DEFAULT, H5P_DEFAULT); CK(a);
    if (!bad && n > 0) CK(H5Awrite(a, t, b));
    if (a >= 0) H5Aclose(a);
    H5Sclose(s); H5Oclose(o); free(b);
  } else if (!strcmp(c, "scale")) { // path name
    hid_t o = H5Dopen2(file, name(), H5P_DEFAULT); CK(o); char *nm = name(); CK(H5DSset_scale(o, *nm ? nm : NULL)); H5Dclose(o);
  } else if (!strcmp(c, "attach")) { // path scale index
    hid_t o = H5Dopen2(file, name(), H5P_DEFAULT), d = H5Dopen2(file, name(), H5P_DEFAULT); CK(o); CK(d); CK(H5DSattach_scale(o, d, num())); H5Dclose(o); H5Dclose(d);
  } else if (!strcmp(c, "delattr")) { hid_t o = openobj(); CK(H5Adelete(o, name())); H5Oclose(o);
  } else if (!strcmp(c, "dellink")) { CK(H5Ldelete(file, name(), H5P_DEFAULT));
  } else if (!strcmp(c, "softlink")) { char *t = name(); CK(H5Lcreate_soft(t, file, name(), lcpl, H5P_DEFAULT));
  } else if (!strcmp(c, "hardlink")) { char *t = name(); CK(H5Lcreate_hard(file, t, file, name(), lcpl, H5P_DEFAULT));
  } else if (!strcmp(c, "flush")) { CK(H5Fflush(file, H5F_SCOPE_GLOBAL));
  } else if (!strcmp(c, "dump")) {
    hid_t f = H5Fopen(name(), H5F_ACC_RDONLY, H5P_DEFAULT);
    if (f < 0) { fail_("cannot open"); return; }
    hid_t g = H5Gopen2(f, "/", H5P_DEFAULT);
    if (g < 0) fail_("cannot open the root group"); else { dobj(g, "/"); H5Gclose(g); }
    H5Fclose(f);
  } else fail_("unknown command");
}

int main(void) {
  static char *line; static size_t cap; ssize_t n;
  H5Eset_auto2(H5E_DEFAULT, NULL, NULL);
  lcpl = H5Pcreate(H5P_LINK_CREATE);
  H5Pset_char_encoding(lcpl, H5T_CSET_UTF8);
  while ((n = getline(&line, &cap, stdin)) > 0) {
    if (line[n - 1] == '\n') line[n - 1] = 0;
    toks = line; bad = 0;
    char *c = tok();
    command(c);
    if (bad) { 
      printf("!%s: %s\n", c, err);
      H5Eclear2(H5E_DEFAULT);
    }
    printf(".\n");
    fflush(stdout);
  }
  return 0;
}
