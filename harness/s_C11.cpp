// C11: division with remainder, row reduction.
#include "core.h"
#include "mat_lzz_pX_extra.h"
#include <iostream>
#include <sstream>
typedef Mat<zz_pX> PM;
struct Quiet { std::streambuf* b; std::ostringstream o; Quiet() { b = std::cout.rdbuf(o.rdbuf()); } ~Quiet() { std::cout.rdbuf(b); } };
static PM dirty(Ctx& c) { return c.r.one(2) ? PM() : c.pmat_dense(c.r.in(0, 4), c.r.in(0, 4), c.r.in(0, 6)); }
// square row reduced, row degrees up to d
static PM rowred(Ctx& c, long n, long d) {
  PM b(INIT_SIZE, n, n); Mat<zz_p> L = c.inv_mat(n);
  for (long i = 0; i < n; i++) {
    long r = c.r.in(0, d); if (c.r.one(3)) r = d;
    for (long j = 0; j < n; j++) { if (r > 0) b[i][j] = c.poly(r - 1); SetCoeff(b[i][j], r, L[i][j]); }
  }
  return b;
}
static void quorem(Ctx& c) {
  c.prime(); long n, m, d;
  switch (c.r.in(0, 4)) {
  case 0: n = c.r.in(1, 3); m = c.r.in(1, 4); d = c.r.in(0, 12); break;
  case 1: n = c.r.in(4, 8); m = c.r.in(1, 3); d = c.r.in(0, 3); break;
  case 2: n = 1; m = c.r.in(1, 3); d = c.r.in(0, 40); break;
  default: n = c.r.in(1, 5); m = c.r.in(1, 5); d = c.r.in(0, 4);
  }
  PM b = rowred(c, n, d), a;
  long da = c.r.in(0, c.r.one(4) ? 60 / n : 2 * d + 4);
  switch (c.r.in(0, 5)) {
  case 0: a = c.pmat_dense(n, m, da); break;
  case 1: { PM q = c.pmat(n, m, c.r.in(0, 5)); a = naive_mul(b, q); break; } // exact division
  case 2: { a = c.pmat(n, m, da); for (long i = 0; i < n; i++) if (c.r.one(2)) { long t = c.r.in(0, d + 1); for (long j = 0; j < m; j++) trunc(a[i][j], a[i][j], t); } break; } // very different row degrees
  case 3: { a.SetDims(n, m); long i = c.r.in(0, n - 1), j = c.r.in(0, m - 1); a[i][j] = c.poly(da); break; }
  case 4: { a.SetDims(n, m); for (long i = 0; i < n; i++) { long t = 0; for (long j = 0; j < n; j++) t = std::max(t, deg(b[i][j])); for (long j = 0; j < m; j++) a[i][j] = c.poly(std::max(0L, t + c.r.in(-1, 0))); } break; }
  default: a = c.pmat(n, m, da);
  }
  PM q = dirty(c), r = dirty(c);
  c.op("quorem"); c.val("alg", "quo_rem"); c.in("a", a); c.in("b", b); c.call();
  quo_rem(q, r, a, b);
  c.ret(); c.out("q", q); c.out("c", r); c.end();
}
static void reduce(Ctx& c) {
  c.prime(); long n = c.r.in(1, 5), d = c.r.in(0, c.r.one(4) ? 8 : 4); PM a;
  switch (c.r.in(0, 5)) {
  case 0: a = c.pmat(n, n, d); break;
  case 1: { // unimodular times diagonal: far from reduced
    a.SetDims(n, n); for (long i = 0; i < n; i++) { a[i][i] = c.poly_exact(c.r.in(0, 2)); SetCoeff(a[i][i], 0, c.nzelt()); }
    for (long t = 0; t < n; t++) { long i = c.r.in(0, n - 1), l = c.r.in(0, n - 1); zz_pX q = c.poly(2); if (i != l) for (long j = 0; j < n; j++) a[i][j] += q * a[l][j]; } break; }
  case 2: { a.SetDims(n, n); for (long i = 0; i < n; i++) { SetCoeff(a[i][i], 0, c.nzelt()); for (long j = i + 1; j < n; j++) a[i][j] = c.poly(d); } break; } // unimodular triangular
  default: a = c.pmat_invct(n, d);
  }
  PM r = dirty(c), w(INIT_SIZE, n, n); Mat<zz_p> a0 = coeff(a, 0); bool inv0 = determinant(a0) != 0;
  c.op("gjv"); c.val("alg", "gjv"); c.in("a", a); c.call(); long ret;
  { Quiet q; ret = reduced_form_gjv(r, a); }
  c.ret(); c.out("st2", ret); if (ret == 1 && inv0) c.out("c", r);
  if (ret == 1 && inv0 && r.NumRows() == n && r.NumCols() == n) { // witness r = w*a: w = r * a^-1, degree at most deg r + (n-1) deg a
    long L = std::max(0L, deg(r)) + n * std::max(0L, deg(a)) + 2; PM ia; plain_inv_trunc(ia, a, L); w = naive_mul(r, ia); for (long i = 0; i < n; i++) for (long j = 0; j < n; j++) trunc(w[i][j], w[i][j], L);
  }
  c.val("w", w); c.end();
}
// exhaustive small scopes: reduction of F, or division of F by G
static void small(Ctx& c) {
  Small S(c); const PM& a = S.F;
  if (S.r2 > 0) {
    const PM& b = S.G; long n = S.r2; Mat<zz_p> L; L.SetDims(n, n);
    for (long i = 0; i < n; i++) { long d = -1; for (long j = 0; j < n; j++) d = std::max(d, deg(b[i][j])); if (d < 0) return; for (long j = 0; j < n; j++) L[i][j] = coeff(b[i][j], d); }
    if (IsZero(determinant(L))) return;
    PM q, r; c.op("quorem"); c.val("alg", "quo_rem"); c.in("a", a); c.in("b", b); c.call(); quo_rem(q, r, a, b); c.ret(); c.out("q", q); c.out("c", r); c.end(); return;
  }
  long n = S.n; PM r, w(INIT_SIZE, n, n); Mat<zz_p> a0 = coeff(a, 0); bool inv0 = determinant(a0) != 0;
  c.op("gjv"); c.val("alg", "gjv"); c.in("a", a); c.call(); long ret; { Quiet q; ret = reduced_form_gjv(r, a); }
  c.ret(); c.out("st2", ret); if (ret == 1 && inv0) c.out("c", r);
  if (ret == 1 && inv0 && r.NumRows() == n && r.NumCols() == n) {
    long L = std::max(0L, deg(r)) + n * std::max(0L, deg(a)) + 2; PM ia; plain_inv_trunc(ia, a, L); w = naive_mul(r, ia); for (long i = 0; i < n; i++) for (long j = 0; j < n; j++) trunc(w[i][j], w[i][j], L); }
  c.val("w", w); c.end();
}
static void run(Ctx& c) {
  if (!c.tok.empty()) { small(c); return; } if (c.idx % 2) reduce(c); else quorem(c); }
static long ncases(bool deep) { return deep ? 30000 : 4000; }
Suite THE_SUITE = {"C11", run, ncases};
