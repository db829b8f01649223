// C05: approximant bases.
#include "core.h"
#include "mat_lzz_pX_extra.h"
#include "mat_lzz_pX_approximant.h"
#include <iostream>
#include <sstream>
typedef Mat<zz_pX> PM; typedef Mat<zz_p> CM;
struct Quiet { std::streambuf* b; std::ostringstream o; Quiet() { b = std::cout.rdbuf(o.rdbuf()); } ~Quiet() { std::cout.rdbuf(b); } };
static PM dirty(Ctx& c) { return c.r.one(2) ? PM() : c.pmat_dense(c.r.in(0, 4), c.r.in(0, 4), c.r.in(0, 6)); }
// matrix with rank-deficient / structured coefficients so that residuals degenerate
static PM degen(Ctx& c, long m, long n, long d) {
  PM a = c.pmat(m, n, d);
  switch (c.r.in(0, 6)) {
  case 0: { long v = c.r.in(1, 4); for (long i = 0; i < m; i++) for (long j = 0; j < n; j++) a[i][j] <<= v; break; }
  case 1: for (long i = 0; i < m; i++) if (c.r.one(2)) for (long j = 0; j < n; j++) a[i][j] <<= c.r.in(0, 3); break;
  case 2: if (m > 1) { long i = c.r.in(0, m - 1), k = c.r.in(0, m - 1); zz_pX q = c.poly(2); if (i != k) for (long j = 0; j < n; j++) a[i][j] = a[k][j] * q; } break;
  case 3: { CM t = c.r.one(2) ? c.mat_dep(m, n) : c.mat_rank(m, n, c.r.in(0, std::min(m, n))); for (long i = 0; i < m; i++) for (long j = 0; j < n; j++) SetCoeff(a[i][j], 0, t[i][j]); break; }
  case 4: if (n > 1) { long k = c.r.in(0, n - 1), l = c.r.in(0, n - 1); for (long i = 0; i < m; i++) a[i][k] = a[i][l] << c.r.in(0, 2); } break;
  default: break;
  }
  return a;
}
static void event(Ctx& c, const char* alg, const PM& a, const VecLong& ord, const VecLong& s, long form, bool ht, bool gen) {
  c.op("appbas"); c.val("alg", alg); c.in("a", a); c.val("ord", ord); c.val("s", s); c.val("form", form); c.val("ht", ht); c.val("gen", gen); c.call();
}
static void fin(Ctx& c, const PM& b, const VecLong* t) { c.ret(); c.out("c", b); if (t) c.out("t", *t); c.end(); }
// exhaustive small scopes: every algorithm on the matrix
static void small(Ctx& c) {
  Small S(c); const PM& a = S.F; long o = S.k; VecLong ord(S.n, o); PM b;
  bool uni = true; if (S.hp) { ord = S.ord; for (long q : ord) uni = uni && q == o; }
  const char* nm[] = {"mbasis_plain", "mbasis_rescomp", "mbasis_resupdate", "mbasis", "pmbasis", "appbas_iterative", "popov_mbasis", "popov_pmbasis", "popov_appbas_iterative", "appbas_iterative"};
  for (int q = 0; q < 10; q++) {
    if (!uni && q != 5 && q < 8) continue;
    VecLong t(S.s);
    c.op("appbas"); c.val("alg", nm[q]); c.in("a", a); c.val("ord", ord); c.val("s", S.s); c.val("form", q >= 6 && q <= 8 ? 4 : 3); c.val("ht", true); c.val("gen", false); if (S.hp) c.val("pred", S.pred); c.call();
    switch (q) {
    case 0: mbasis_plain(b, a, o, t); break;
    case 1: mbasis_rescomp(b, a, o, t); break;
    case 2: mbasis_resupdate(b, a, o, t); break;
    case 3: mbasis(b, a, o, t); break;
    case 4: pmbasis(b, a, o, t); break;
    case 5: appbas_iterative(b, a, ord, t, true); break;
    case 6: popov_mbasis(b, a, o, t); break;
    case 7: popov_pmbasis(b, a, o, t); break;
    case 8: popov_appbas_iterative(b, a, ord, t, S.hp && c.idx % 2); break;
    default: appbas_iterative(b, a, ord, t, false); }
    fin(c, b, &t);
  }
  if (!uni) return;
  if (S.m == 2 && S.n == 1) { VecLong t(S.s); zz_pX p00, p01, p10, p11; event(c, "pmbasis_2x1", a, ord, S.s, 3, true, false); pmbasis_2x1(p00, p01, p10, p11, a[0][0], a[1][0], o, t[0], t[1], 1);
    b.kill(); b.SetDims(2, 2); b[0][0] = p00; b[0][1] = p01; b[1][0] = p10; b[1][1] = p11; fin(c, b, &t); }
}
static void run(Ctx& c) {
  if (!c.tok.empty()) { small(c); return; }
  int k = c.idx % 16;
  PM b;
  if (k < 10) {
    int sz = c.r.in(0, 19); long m, n, o;
    if (sz >= 17 && c.r.one(2)) c.prime_of({P2, PTINY}); else c.prime();
    b = dirty(c);
    if (sz < 13) { m = c.r.in(1, 5); n = c.r.in(1, 5); o = c.r.in(1, 12); }
    else if (sz < 17) { m = c.r.in(1, 3); n = c.r.in(1, 3); o = c.r.in(20, c.deep ? 150 : 80); }
    else { m = c.r.in(5, 14); n = c.r.in(1, 10); o = c.r.in(1, 5); }
    PM a = degen(c, m, n, c.r.one(3) ? c.r.in(0, 3) : c.r.one(3) ? o + c.r.in(0, 4) : o - 1);
    VecLong s = c.shift(m, c.r.in(1, c.r.one(4) ? 30 : 6)), t(s), ord(n, o);
    switch (k) {
    case 0: case 1: { if (c.r.one(2)) { for (auto& q : ord) q = c.r.in(1, o); }
      bool w = c.r.one(2), pop = k == 1, def = c.r.one(4);
      if (def) { bool z = c.r.one(2); PolMatForm f = (PolMatForm)c.r.in(0, 4); t = c.r.one(2) ? VecLong(3, 9) : VecLong(); bool uni = c.r.one(3); if (uni) ord = VecLong(n, o); if (z) s = VecLong(m, 0);
        event(c, "approximant_basis", a, ord, s, (long)f, true, false);
        Quiet q; if (uni) { if (z) approximant_basis(b, t, a, o, VecLong(), f); else approximant_basis(b, t, a, o, s, f); } else { if (z) approximant_basis(b, t, a, ord, VecLong(), f); else approximant_basis(b, t, a, ord, s, f); }
        fin(c, b, &t); break; }
      event(c, pop ? "popov_appbas_iterative" : "appbas_iterative", a, ord, s, pop ? 4 : 3, true, false);
      if (pop) popov_appbas_iterative(b, a, ord, t, w); else appbas_iterative(b, a, ord, t, w); fin(c, b, &t); break; }
    case 2: event(c, "mbasis_plain", a, ord, s, 3, true, false); mbasis_plain(b, a, o, t); fin(c, b, &t); break;
    case 3: event(c, "mbasis_rescomp", a, ord, s, 3, true, false); mbasis_rescomp(b, a, o, t); fin(c, b, &t); break;
    case 4: event(c, "mbasis_resupdate", a, ord, s, 3, true, false); mbasis_resupdate(b, a, o, t); fin(c, b, &t); break;
    case 5: event(c, "mbasis", a, ord, s, 3, true, false); mbasis(b, a, o, t); fin(c, b, &t); break;
    case 6: event(c, "popov_mbasis", a, ord, s, 4, true, false); popov_mbasis(b, a, o, t); fin(c, b, &t); break;
    case 7: case 8: event(c, "pmbasis", a, ord, s, 3, true, false); pmbasis(b, a, o, t); fin(c, b, &t); break;
    case 9: event(c, "popov_pmbasis", a, ord, s, 4, true, false); popov_pmbasis(b, a, o, t); fin(c, b, &t); break;
    }
    return;
  }
  if (k == 10) {      // constant matrices
    if (c.r.one(2)) c.prime_of({P2, PTINY}); else c.prime();
    for (int rep = 0; rep < 6; rep++) {
    long m = c.r.in(1, c.r.one(2) ? 16 : 7), n = c.r.in(1, c.r.one(2) ? m : 7); CM a = c.r.one(2) ? c.mat_dep(m, n) : c.r.one(2) ? c.mat_rank(m, n, c.r.in(0, std::min(m, n))) : c.mat(m, n), ker;
    if (c.r.one(2)) for (long i = 0; i < m; i++) if (c.r.one(3)) for (long j = 0; j < n; j++) clear(a[i][j]);
    VecLong s = c.shift(m, 4), t; bool pop = c.r.one(2); if (c.r.one(2)) ker = c.mat(c.r.in(1, 3), c.r.in(1, 3));
    c.op("mbasis1"); c.val("alg", pop ? "popov" : "owp"); c.in("a", a); c.in("s", s); c.val("form", pop ? 4 : 3); c.call();
    t = pop ? popov_mbasis1(ker, a, s) : mbasis1(ker, a, s); c.ret(); c.out("c", ker); c.out("t", t); c.end(); }
    return;
  }
  if (k == 11) {      // 2 x 1
    c.prime(); bool rec = c.r.one(2); long o = c.r.one(3) ? c.r.in(1, c.deep ? 300 : 150) : c.r.in(1, 20);
    PM a = degen(c, 2, 1, o - 1); VecLong s = c.shift(2, c.r.in(1, 10)), t(s), ord(1, o); long th = c.r.one(2) ? 32 : c.r.in(1, 40);
    zz_pX p00, p01, p10, p11; if (c.r.one(2)) { p00 = c.dense(4); p01 = c.dense(3); p10 = c.dense(4); p11 = c.dense(9); }
    event(c, rec ? "pmbasis_2x1" : "appbas_iterative_2x1", a, ord, s, 3, true, false);
    if (rec) pmbasis_2x1(p00, p01, p10, p11, a[0][0], a[1][0], o, t[0], t[1], th); else appbas_iterative_2x1(p00, p01, p10, p11, a[0][0], a[1][0], o, t[0], t[1]);
    b.kill(); b.SetDims(2, 2); b[0][0] = p00; b[0][1] = p01; b[1][0] = p10; b[1][1] = p11; fin(c, b, &t); return;
  }
  // generic variants: uniformly random input over a large field
  c.prime_of({P59, P60, PFFT, P59}); b = dirty(c);
  if (k == 15) {
    if (c.r.one(2)) {
      long m = c.r.in(1, 6), n = c.r.in(1, m), o = c.r.one(4) ? c.r.in(32, 70) : c.r.in(1, c.r.one(3) ? 45 : 12); PM a = c.pmat_dense(m, n, o - 1 + c.r.in(0, 3));
      bool q = c.r.one(2); if (!q && o > 31) o = 31;
      event(c, q ? "popov_pmbasis_generic" : "popov_mbasis_rescomp_generic", a, VecLong(n, o), VecLong(m, 0), 4, false, false);
      if (q) popov_pmbasis_generic(b, a, o); else popov_mbasis_rescomp_generic(b, a, o); fin(c, b, 0); return;
    }
    long m = c.r.in(1, 5), o = m * c.r.in(1, 8); bool q = c.r.one(2); if (q && c.r.one(2)) o = m * 2 * c.r.in(9, 16);
    PM a; a.SetDims(m, 1); for (long i = 0; i < m; i++) a[i][0] = c.poly_exact(o - 1); VecLong z(m, 0);
    event(c, q ? "pmbasis_generic_onecolumn" : "mbasis_generic_onecolumn", a, VecLong(1, o), z, 3, true, false);
    VecLong t = q ? pmbasis_generic_onecolumn(b, a, o, z) : mbasis_generic_onecolumn(b, a, o, z); fin(c, b, &t); return;
  }
  long n = c.r.in(1, 4), o = c.r.in(2, c.r.one(3) ? (c.deep ? 160 : 90) : 24);
  if (k == 14) {
    PM a = c.pmat_dense(n, n, o - 1 + c.r.in(0, c.r.one(3) ? o : 2)), d; int f = c.r.in(0, 3); const char* nm[] = {"iterative2", "iterative", "recursion", "pade"}; const char* kd[] = {"den2", "den", "rec", "den"};
    c.op("pade"); c.val("alg", nm[f]); c.in("a", a); c.val("ord", o); c.val("kind", kd[f]); c.call();
    switch (f) { case 0: matrix_pade_generic_iterative(b, d, a, o); break; case 1: matrix_pade_generic_iterative(b, a, o); break; case 2: matrix_pade_generic_recursion(b, a, o); break; default: matrix_pade_generic(b, a, o); }
    c.ret(); c.out("c", b); if (f == 0) c.out("d", d); c.end(); return;
  }
  PM a = c.pmat_dense(2 * n, n, o - 1 + c.r.in(0, c.r.one(3) ? o : 2)); VecLong ord(n, o), s(2 * n, 0);
  int f = c.r.in(0, 3);
  if (f == 3) { c.op("apptop"); c.in("a", a); c.in("ord", ord); c.call(); pmbasis_generic_2n_n_top_rows(b, a, o); c.ret(); c.out("c", b); c.end(); return; }
  event(c, f == 0 ? "generic_rescomp" : f == 1 ? "generic_resupdate" : "pmbasis_generic", a, ord, s, 3, false, true);
  if (f == 0) mbasis_generic_2n_n_rescomp(b, a, o); else if (f == 1) mbasis_generic_2n_n_resupdate(b, a, o); else pmbasis_generic_2n_n(b, a, o);
  fin(c, b, 0);
}
static long ncases(bool deep) { return deep ? 60000 : 6000; }
Suite THE_SUITE = {"C05", run, ncases};
