// C07: kernel bases.
#include "core.h"
#include "mat_lzz_pX_extra.h"
#include "mat_lzz_pX_kernel.h"
#include <iostream>
#include <sstream>
typedef Mat<zz_pX> PM;
struct Quiet { std::streambuf* b; std::ostringstream o; Quiet() { b = std::cout.rdbuf(o.rdbuf()); } ~Quiet() { std::cout.rdbuf(b); } };
static PM dirty(Ctx& c) { return c.r.one(2) ? PM() : c.pmat_dense(c.r.in(0, 4), c.r.in(0, 4), c.r.in(0, 6)); }
// exhaustive small scopes: every algorithm on the matrix
static void small(Ctx& c) {
  Small S(c); if (S.k != 1 && !S.hp) return;
  const char* nm[] = {"via_approximation", "via_interpolation", "zls_approximation", "zls_interpolation", "kernel_basis"};
  for (int k = 0; k < 5; k++) {
    PM a = S.F, b; VecLong t(S.s), piv; bool pv = k <= 1, ht = k <= 3;
    c.op("kerbas"); c.val("alg", nm[k]); c.val("a", a); c.val("s", S.s); c.val("form", pv ? 3 : 1); c.val("ht", ht); c.val("hp", pv); if (S.hp && ht) c.val("pred", S.pred); c.call();
    { Quiet q; switch (k) {
      case 0: kernel_basis_via_approximation(b, piv, a, t); break;
      case 1: kernel_basis_via_interpolation(b, piv, a, t); break;
      case 2: kernel_basis_zls_via_approximation(b, a, t); break;
      case 3: kernel_basis_zls_via_interpolation(b, a, t); break;
      default: kernel_basis(b, a, S.s); } }
    c.ret(); c.out("c", b); if (ht) c.out("t", t); if (pv) c.out("piv", piv); c.end();
  }
}
static void run(Ctx& c) {
  if (!c.tok.empty()) { small(c); return; }
  int k = c.idx % 10;
  if (k == 9 && c.r.one(2)) k = 8;
  if (k == 9) {   // experimental routine for generic input: [X^d I + A ; V] over a large field
    c.prime_of({P59, P60, PFFT});
    long n = c.r.in(1, 6), m = c.r.in(1, n + 1), d = c.r.one(2) ? 1 : c.r.one(6) ? 0 : c.r.in(2, 6); PM b; 
    if (d <= 1) { b = dirty(c); } else ident(b, n + m);   // documented: replaced if d <= 1, multiplied otherwise
    PM a = c.pmat_dense(n + m, n, std::max(0L, d - 1)); for (long i = 0; i < n; i++) SetCoeff(a[i][i], d, 1);
    c.op("kerrows"); c.val("alg", "generic"); c.val("a", a); c.call();
    kernel_basis_generic(b, a); c.ret(); c.out("c", b); c.end(); return;
  }
  int sz = c.r.in(0, 9); long m, n, d;
  if (sz < 6) { m = c.r.in(1, 6); n = c.r.in(1, 6); d = c.r.in(0, 4); }
  else if (sz < 8) { m = c.r.in(2, 12); n = c.r.in(1, std::max(1L, m / 2)); d = c.r.in(0, 3); }
  else if (sz == 8) { m = c.r.in(1, 3); n = c.r.in(1, 3); d = c.r.in(4, c.deep ? 24 : 12); }
  else { m = c.r.in(6, 10); n = c.r.in(3, m / 2); d = c.r.in(1, 3); }
  c.prime(); PM b = dirty(c);
  PM a; bool unb = c.r.one(6);
  if (unb) {      // unbalanced kernel: one row of large degree, so that the first basis of the ZLS algorithms does not contain the whole kernel
    n = c.r.in(2, 5); m = 2 * n + c.r.in(0, 3); d = c.r.in(1, 2); a.SetDims(m, n);
    for (long i = 0; i <= n; i++) { if (i < n) { a[i][i] = c.poly(c.r.in(0, d - 1)); SetCoeff(a[i][i], d, c.nzelt()); } if (i > 0) SetCoeff(a[i][i - 1], 0, c.nzelt()); }
    for (long i = n + 1; i < m; i++) { long l = c.r.in(0, n); if (c.r.one(2)) for (long j = 0; j < n; j++) a[i][j] = c.r.one(3) ? zz_pX() : a[l][j]; }
    if (c.r.one(2)) { PM u, v; conv(u, c.inv_mat(m)); multiply_naive(v, u, a); a = v; }
    if (c.r.one(2)) { PM u, v; conv(u, c.inv_mat(n)); multiply_naive(v, a, u); a = v; }
    for (long i = m; i > 1; i--) swap(a[i - 1], a[c.r.in(0, i - 1)]);
  }
  else switch (c.r.in(0, 4)) {
  case 0: a = c.pmat(m, n, d); break;
  case 1: a = c.pmat_rank(m, n, d, c.r.in(0, std::min(m, n))); break;
  case 2: a = c.pmat_dense(m, n, d); break;
  case 3: { a = c.pmat(m, n, d); for (long i = 0; i < m; i++) { long v = c.r.in(0, 3); if (c.r.one(2)) for (long j = 0; j < n; j++) a[i][j] <<= v; } break; }
  default: { a = c.pmat(m, n, d); // dependent rows/columns
    if (m > 1) { long i = c.r.in(0, m - 1), l = c.r.in(0, m - 1); zz_pX q = c.poly(2); if (i != l) for (long j = 0; j < n; j++) a[i][j] = a[l][j] * q; }
    if (n > 1) { long i = c.r.in(0, n - 1), l = c.r.in(0, n - 1); zz_pX q = c.poly(1); if (i != l) for (long j = 0; j < m; j++) a[j][i] = a[j][l] * q; } } }
  VecLong s = c.shift(m, c.r.in(0, c.r.one(3) ? 20 : 5)), t(s), piv;
  if (c.r.one(4)) s = VecLong(m, c.r.in(-2, 4));
  if (c.r.one(5)) { s = row_degree(a); }
  if (unb && !c.r.one(4)) { s = row_degree(a); long o = c.r.in(-3, 4); for (auto& q : s) q = q + o + (c.r.one(8) ? c.r.in(0, 2) : 0); }
  t = s; if (c.r.one(2)) piv = VecLong(2, 5);
  PM w(a);
  const char* nm[] = {"via_approximation", "via_approximation", "via_interpolation", "via_interpolation", "zls_approximation", "zls_approximation", "zls_interpolation", "zls_interpolation", "kernel_basis"};
  bool pv = k <= 3, ht = k <= 7;
  c.op("kerbas"); c.val("alg", nm[k]);
  if (k <= 3 || k == 8) c.in("a", a); else c.val("a", a);
  c.val("s", s); c.val("form", pv ? 3 : 1); c.val("ht", ht); c.val("hp", pv); c.call();
  { Quiet q;
  switch (k) {
  case 0: case 1: kernel_basis_via_approximation(b, piv, a, t); break;
  case 2: case 3: kernel_basis_via_interpolation(b, piv, a, t); break;
  case 4: case 5: kernel_basis_zls_via_approximation(b, w, t); break;
  case 6: case 7: kernel_basis_zls_via_interpolation(b, w, t); break;
  case 8: kernel_basis(b, a, s); break;
  } }
  c.ret(); c.out("c", b); if (ht) c.out("t", t); if (pv) c.out("piv", piv); c.end();
}
static long ncases(bool deep) { return deep ? 40000 : 4000; }
Suite THE_SUITE = {"C07", run, ncases};
