// C17: structured matrices over the polynomials against their dense form.
#include "core.h"
#include <lzz_pXY.h>
#include <structured_lzz_pX.h>
using namespace NTL; using namespace PML;
static long dim(Ctx& c) { long x = c.r.in(0, 15); return x == 0 ? c.r.in(14, 30) : x <= 3 ? 1 : c.r.in(1, 9); }
static long dg(Ctx& c) { return c.r.one(12) ? c.r.in(15, 40) : c.r.one(4) ? 0 : c.r.in(0, 8); }
// vector of polynomials: dense, sparse or zero
static Vec<zz_pX> pv(Ctx& c, long n) {
  Vec<zz_pX> v; v.SetLength(n); long d = dg(c), k = c.r.in(0, 7); if (k == 0) return v;
  for (long i = 0; i < n; i++) if (k > 2 || c.r.one(3)) v[i] = k == 7 ? LeftShift(c.poly(c.r.in(0, d)), c.r.in(0, 4)) : c.poly(k == 6 ? c.r.in(-1, d) : d);
  if (k == 5) for (long i = c.r.in(0, n); i < n; i++) clear(v[i]);
  return v;
}
static Mat<zz_pX> pm(Ctx& c, long m, long n) { Mat<zz_pX> M; M.SetDims(m, n); for (long j = 0; j < n; j++) { Vec<zz_pX> v = pv(c, m); for (long i = 0; i < m; i++) M[i][j] = v[i]; } return M; }
static Vec<zz_pX> dirtyv(Ctx& c, long n) { Vec<zz_pX> v; if (c.r.one(2)) v = pv(c, c.r.one(2) ? n : c.r.in(0, n + 4)); return v; }
static Mat<zz_pX> dirtym(Ctx& c, long a, long b) { Mat<zz_pX> v; if (c.r.one(2)) v = c.r.one(2) ? pm(c, a, b) : pm(c, c.r.in(0, a + 3), c.r.in(0, b + 3)); return v; }
static void created(Ctx& c, const structured_lzz_pX& o) {
  Mat<zz_pX> M = dirtym(c, o.NumRows(), o.NumCols()); o.to_dense(M); long nr = o.NumRows(), nc = o.NumCols(); c.ret(); c.out("nr", nr); c.out("nc", nc); c.out("M", M);
}
static long prec(Ctx& c) { return c.r.one(8) ? 0 : c.r.one(4) ? 1 : c.r.one(4) ? c.r.in(20, 90) : c.r.in(1, 14); }
static void use1(Ctx& c, const structured_lzz_pX& o) {
  long m = o.NumRows(), n = o.NumCols(), al = c.r.one(6), t = c.r.in(0, 1), s = prec(c);
  auto head = [&](const char* f, const char* ft) { c.op(t ? ft : f); c.val("id", 0L); if (t) c.val("s", s); };
  switch (c.r.in(0, 6)) {
    case 0: { Mat<zz_pX> M = dirtym(c, m, n); c.op("sx.dense"); c.val("id", 0L); c.call(); o.to_dense(M); c.ret(); c.out("c", M); c.end(); } break;
    case 1: case 2: { Vec<zz_pX> v = pv(c, n), r = dirtyv(c, m); head("sx.mulr", "sx.mulrt"); c.val("v", v);
      if (al) { r = v; c.call(); t ? o.mul_right_trunc(r, r, s) : o.mul_right(r, r); } else { c.call(); t ? o.mul_right_trunc(r, v, s) : o.mul_right(r, v); } c.ret(); c.out("c", r); c.end(); } break;
    case 3: case 4: { Vec<zz_pX> v = pv(c, m), r = dirtyv(c, n); head("sx.mull", "sx.mullt"); c.val("v", v);
      if (al) { r = v; c.call(); t ? o.mul_left_trunc(r, r, s) : o.mul_left(r, r); } else { c.call(); t ? o.mul_left_trunc(r, v, s) : o.mul_left(r, v); } c.ret(); c.out("c", r); c.end(); } break;
    case 5: { long k = c.r.in(0, 3); Mat<zz_pX> v = pm(c, n, k), r = dirtym(c, m, k); head("sx.mulrm", "sx.mulrmt"); c.val("v", v);
      if (al) { r = v; c.call(); t ? o.mul_right_trunc(r, r, s) : o.mul_right(r, r); } else { c.call(); t ? o.mul_right_trunc(r, v, s) : o.mul_right(r, v); } c.ret(); c.out("c", r); c.end(); } break;
    default: { long k = c.r.in(0, 3); Mat<zz_pX> v = pm(c, k, m), r = dirtym(c, k, n); head("sx.mullm", "sx.mullmt"); c.val("v", v);
      if (al) { r = v; c.call(); t ? o.mul_left_trunc(r, r, s) : o.mul_left(r, r); } else { c.call(); t ? o.mul_left_trunc(r, v, s) : o.mul_left(r, v); } c.ret(); c.out("c", r); c.end(); }
  }
}
static void use(Ctx& c, const structured_lzz_pX& o) { for (long it = c.r.in(2, 5); it > 0; it--) use1(c, o); }
// preparations are interleaved with the products
template <class T> static void use_prep(Ctx& c, T& o) {
  for (long it = c.r.in(3, 7); it > 0; it--) {
    if (c.r.one(2)) { long d = c.r.one(8) ? -1 : dg(c); c.op("sx.prep"); c.val("id", 0L); c.val("d", d); c.call(); o.prepare_degree(d); c.ret(); c.end(); }
    use1(c, o);
  }
}
// exhaustive small scopes: all data of a few entries
static void small(Ctx& c) {
  Small S(c); long N = S.n, k = S.k; Vec<zz_pX> d = S.F[0];
  if (k == 1) { c.op("sx.new"); c.val("id", 0L); c.val("kind", "ltt"); c.in("d", d); c.call(); lower_triangular_toeplitz_lzz_pX o(d); created(c, o); c.end(); use_prep(c, o); }
  { c.op("sx.new"); c.val("id", 0L); c.val("kind", "circrow"); c.val("r", k); c.in("d", d); c.call(); circulant_row_lzz_pX o(d, k); created(c, o); c.end(); use_prep(c, o); }
  if (k < N) { Vec<zz_pX> a, b; for (long i = 0; i < k; i++) a.append(d[i]); for (long i = k; i < N; i++) b.append(d[i]); if (a[k - 1] == 0 || b[N - k - 1] == 0 || N == 2) return;
    c.op("sx.new"); c.val("id", 0L); c.val("kind", "sylvester"); c.in("a", a); c.in("b", b); c.call(); sylvester_lzz_pX o(a, b); created(c, o); c.end(); use(c, o); use(c, o); }
}
static void run(Ctx& c) {
  if (!c.tok.empty()) { small(c); return; }
  c.prime();
  long m = dim(c), n = dim(c);
  switch (c.r.in(0, 7)) {
    case 0: { Vec<zz_pX> d = pv(c, m); c.op("sx.new"); c.val("id", 0L); c.val("kind", "ltt"); c.in("d", d); c.call(); lower_triangular_toeplitz_lzz_pX o(d); created(c, o); c.end(); use_prep(c, o); } break;
    case 1: { Vec<zz_pX> d = pv(c, n); c.op("sx.new"); c.val("id", 0L); c.val("kind", "circrow"); c.val("r", m); c.in("d", d); c.call(); circulant_row_lzz_pX o(d, m); created(c, o); c.end(); use_prep(c, o); } break;
    case 2: case 3: { long a = c.r.in(1, 4); Mat<zz_pX> G = pm(c, m, a), H = pm(c, n, a); c.op("sx.new"); c.val("id", 0L); c.val("kind", "tminus"); c.in("G", G); c.in("H", H); c.call(); toeplitz_like_minus_lzz_pX o(G, H); created(c, o); c.end(); use(c, o); } break;
    case 4: { Mat<zz_pX> A = pm(c, m, n), R = dirtym(c, m, n); bool k = c.r.one(2); c.op("sx.phi"); c.val("kind", k ? "tplus" : "tminus"); c.val("a", A);
      if (c.r.one(3)) { R = A; c.call(); k ? toeplitz_lzz_pX_phi_plus(R, R) : toeplitz_lzz_pX_phi_minus(R, R); } else { c.call(); k ? toeplitz_lzz_pX_phi_plus(R, A) : toeplitz_lzz_pX_phi_minus(R, A); } c.ret(); c.out("c", R); c.end(); } break;
    default: {
      long da = c.r.one(12) ? c.r.in(8, 16) : c.r.in(0, 6), db = c.r.one(12) ? c.r.in(8, 16) : c.r.in(0, 6); if (c.r.one(8)) (c.r.one(2) ? da : db) = 0; if (da + db == 0) da = 1;
      bool inv = c.r.one(3); if (inv) { da = da ? da : 1; db = db ? db : 1; }
      Vec<zz_pX> a = pv(c, da + 1), b = pv(c, db + 1);
      if (inv) { long q = c.r.in(0, 4); if (q != 1) while (coeff(a[da], 0) == 0) a[da] = c.poly(dg(c)) + c.nzelt(); if (q != 2) while (coeff(b[db], 0) == 0) b[db] = c.poly(dg(c)) + c.nzelt(); }
      while (a[da] == 0) a[da] = LeftShift(c.poly(dg(c)), c.r.one(3) ? c.r.in(0, 3) : 0); while (b[db] == 0) b[db] = c.poly(dg(c));
      c.op("sx.new"); c.val("id", 0L); c.val("kind", "sylvester"); c.in("a", a); c.in("b", b); c.call(); sylvester_lzz_pX o(a, b); created(c, o); c.end();
      if (!inv || c.r.one(3)) use(c, o);
      { Mat<zz_pX> G = dirtym(c, da + db, 2), H = dirtym(c, da + db, 2); c.op("sx.gens"); c.val("id", 0L); c.call(); o.phi_plus_generators(G, H); c.ret(); c.out("G", G); c.out("H", H); c.end(); }
      if (!inv) break;
      Mat<zz_pX> M = o.to_dense(); Mat<zz_p> M0; M0.SetDims(da + db, da + db); for (long i = 0; i < da + db; i++) for (long j = 0; j < da + db; j++) M0[i][j] = coeff(M[i][j], 0);
      if (determinant(M0) == 0) break;
      long pr = c.r.one(8) ? c.r.in(20, 60) : c.r.in(1, 14); bool hi = c.r.one(2); toeplitz_like_minus_lzz_pX iM;
      c.op("sx.inv"); c.val("id", 0L); c.val("hi", hi); c.val("k", pr); c.call(); if (hi) o.high_precision_inv_trunc(iM, pr); else o.newton_inv_trunc(iM, pr); Mat<zz_pX> D = iM.to_dense(); c.ret(); c.out("c", D); c.end();
    }
  }
}
static long ncases(bool deep) { return deep ? 40000 : 4000; }
Suite THE_SUITE = {"C17", run, ncases};
