// C10: determinants.
#include "core.h"
#include "lzz_p_extra.h"
#include "mat_lzz_pX_extra.h"
#include "mat_lzz_pX_determinant.h"
#include <iostream>
#include <sstream>
typedef Mat<zz_pX> PM;
struct Quiet { std::streambuf* b; std::ostringstream o; Quiet() { b = std::cout.rdbuf(o.rdbuf()); } ~Quiet() { std::cout.rdbuf(b); } };
static PM gen(Ctx& c, long n, long d) {
  switch (c.r.in(0, 7)) {
  case 0: return c.pmat_dense(n, n, d);
  case 1: return c.pmat_rank(n, n, d, c.r.in(0, n));
  case 2: return c.pmat_nonsing(n, d);
  case 3: return c.pmat_max(n, n, d);
  case 4: { PM a = c.pmat_dense(n, n, d); for (long i = 0; i < n; i++) { long t = c.r.in(0, d); for (long j = 0; j < n; j++) trunc(a[i][j], a[i][j], t + 1); } return a; }
  case 5: return c.pmat_invct(n, d);
  default: return c.pmat(n, n, d);
  }
}
static zz_pX ddet(const PM& a) { // reference for building candidates only
  zz_pX x; determinant_expansion_by_minors_rec(x, a); return x;
}
// exhaustive small scopes
static void small(Ctx& c) {
  Small S(c); const PM& a = S.F; zz_pX det; bool ret;
  c.op("det"); c.val("alg", "minors"); c.in("a", a); c.call(); if (S.n <= 4) determinant_expansion_by_minors(det, a); c.ret(); c.out("c", det); c.end();
  c.op("det"); c.val("alg", "minors_rec"); c.in("a", a); c.call(); determinant_expansion_by_minors_rec(det, a); c.ret(); c.out("c", det); c.end();
  if (S.p > S.n * (S.len - 1)) { c.op("det"); c.val("alg", "general"); c.in("a", a); c.call(); determinant_via_evaluation_general(det, a); c.ret(); c.out("c", det); c.end(); }
  for (long k = 0; k <= S.n * (S.len - 1); k++) { c.op("detgen"); c.val("alg", "generic"); c.in("a", a); c.val("k", k); c.val("gen", false); c.call();
    { Quiet q; ret = determinant_generic_knowing_degree(det, a, k); } c.ret(); c.out("ret", ret); c.out("c", det); c.end(); }
}
static void run(Ctx& c) {
  if (!c.tok.empty()) { small(c); return; }
  int k = c.idx % 10; PM a; zz_pX det;
  long n = c.r.in(1, 6), d = c.r.in(0, c.r.one(4) ? 20 : 5);
  if (k <= 1) { c.prime(); n = c.r.in(1, 4); a = gen(c, n, c.r.one(4) ? c.r.in(10, 60) : d); det = c.poly(6); c.op("det"); c.val("alg", "minors"); c.in("a", a); c.call(); determinant_expansion_by_minors(det, a); }
  else if (k == 2) { c.prime(); n = c.r.in(1, 5); a = gen(c, n, d); det = c.poly(6); c.op("det"); c.val("alg", "minors_rec"); c.in("a", a); c.call(); determinant_expansion_by_minors_rec(det, a); }
  else if (k == 3) { c.prime_min(n * d + 2); a = gen(c, n, d); det = c.poly(6); c.op("det"); c.val("alg", "general"); c.in("a", a); c.call(); determinant_via_evaluation_general(det, a); }
  else if (k == 4) { if (c.r.one(4)) n = c.r.in(6, 12); if (n > 6) d = std::min(d, 4L); c.prime_min(40 * (n * d + 2)); a = gen(c, n, d); det = c.poly(6); c.op("det"); c.val("alg", "geometric"); c.in("a", a); c.call(); determinant_via_evaluation_geometric(det, a); }
  else if (k == 5) { if (c.r.one(4)) n = c.r.in(6, 12); if (n > 6) d = std::min(d, 4L); c.prime_cls(c.r.one(3) ? PUFFT : PFFT); while (d > 0 && !is_FFT_ready(NextPowerOfTwo(n * d + 1))) d /= 2;
    a = gen(c, n, d); det = c.poly(6); c.op("det"); c.val("alg", "FFT"); c.in("a", a); c.call(); determinant_via_evaluation_FFT(det, a); }
  else if (k == 6) { c.prime_of({P45, P59, P60, PFFT}); if (c.r.one(4)) n = c.r.in(5, 9); a = c.pmat_invct(n, d); det = c.poly(6); c.op("detc"); c.val("alg", "linsolve"); c.in("a", a); c.call(); determinant_via_linsolve(det, a); }
  else if (k == 7) {
    bool g = c.r.one(2); n = c.r.in(1, c.r.one(3) ? 12 : 8); if (n > 6) d = std::min(d, 6L);
    if (g) c.prime_of({P45, P59, P60, PFFT}); else c.prime();
    if (!g) { n = c.r.in(1, 6); d = c.r.in(0, 4); }
    a = g ? c.pmat_dense(n, n, d) : gen(c, n, d);
    long dg; if (n <= 5) dg = deg(ddet(a)); else if (g) dg = n * d; else dg = deg(ddet(a));
    if (n <= 4 && c.r.one(3)) dg += c.r.in(-1, 1);
    c.op("detgen"); c.val("alg", "generic"); c.in("a", a); c.val("k", dg); c.val("gen", g); c.call();
    bool ret; { Quiet q; ret = determinant_generic_knowing_degree(det, a, dg); }
    c.ret(); c.out("ret", ret); c.out("c", det); c.end(); return;
  } else {
    bool up = k == 9; n = c.r.in(1, 5); d = c.r.in(0, 5); bool ok = c.r.one(2);
    if (ok) c.prime(); else c.prime_of({P45, P59, P60, PFFT});
    a = gen(c, n, d); det = ddet(a);
    if (up) { zz_p t = c.nzelt(); det = t * det; }
    if (!ok) switch (c.r.in(0, 5)) {
      case 0: clear(det); break;
      case 1: { zz_p t = c.nzelt(); det += t; break; }
      case 2: det *= c.poly_exact(1); break;
      case 3: { zz_p t = c.elt(); det = t * det; break; }
      case 4: { long e = c.r.in(0, n * d + 1); zz_p t = c.elt(); SetCoeff(det, e, t); break; }
      default: det = c.poly(n * d);
    }
    c.op("detchk"); c.val("alg", up ? "verify_upto" : "verify"); c.in("a", a); c.in("d", det); c.val("upto", up); c.call();
    bool ret = verify_determinant(det, a, up, true);
    c.ret(); c.out("ret", ret); c.end(); return;
  }
  c.ret(); c.out("c", det); c.end();
}
static long ncases(bool deep) { return deep ? 40000 : 5000; }
Suite THE_SUITE = {"C10", run, ncases};
