// C12: collapses, partial linearisation, products through it.
#include "core.h"
#include "mat_lzz_pX_extra.h"
#include "mat_lzz_pX_linearization.h"
typedef Mat<zz_pX> PM;
static PM dirty(Ctx& c, long m, long n) {
  switch (c.r.in(0, 2)) { case 0: return PM(); case 1: return c.pmat_dense(c.r.in(0, 4), c.r.in(0, 4), 5); default: return c.pmat_dense(m, n, 12); }
}
// exhaustive small scopes: linearisations of F with the parameters s, and products through them
static void small(Ctx& c) {
  Small S(c); const PM& a = S.F; PM x;
  if (S.r2 > 0) {
    const PM& b = S.G; for (long pd = 0; pd <= S.len2; pd++) { c.op("plmul"); c.val("form", 1L); c.in("a", a); c.in("b", b); c.val("w", pd); c.call(); right_parlin_multiply(x, a, b, pd); c.ret(); c.out("c", x); c.end(); }
    c.op("plmul"); c.val("form", 3L); c.in("a", a); c.in("b", b); c.val("w", 0L); c.call(); right_parlin_multiply(x, a, b); c.ret(); c.out("c", x); c.end(); return;
  }
  VecLong w(S.s), t(S.n), cols; for (long j = 0; j < S.n; j++) { t[j] = -1; for (long i = 0; i < S.m; i++) t[j] = std::max(t[j], deg(a[i][j])); }
  for (long f = 0; f < 4; f++) {
    if (f >= 2) for (long j = 0; j < S.n; j++) t[j] = std::max(-1L, t[j] + (f == 2 ? 1 : -1 - w[j]));
    long dinf = S.len - 1;
    c.op(f == 1 ? "parlind" : "parlin"); c.val("form", f); c.in("a", a); c.in("w", w); c.in("t", t); if (f == 1) c.val("dinf", dinf); c.call();
    if (f == 1) cols = column_partial_linearization(x, a, w, t, dinf); else cols = column_partial_linearization(x, a, w, t);
    c.ret(); c.out("cols", cols); c.out("c", x); c.end();
  }
}
static void run(Ctx& c) {
  if (!c.tok.empty()) { small(c); return; }
  c.prime();
  long m = c.r.in(1, 4), n = c.r.in(1, 5), d = c.r.in(0, 14);
  PM x = dirty(c, m, n);
  int k = c.idx % 8;
  if (k < 2) {
    long s = c.r.in(1, 4), t = c.r.in(0, 4), dd = c.r.in(1, 6);
    PM a = c.pmat(m, s * t, dd - 1);
    bool al = c.r.one(4);
    c.op(k ? "collnc" : "collc"); c.val("d", dd); c.val("s", s);
    if (al) { c.val("a", a); c.call(); if (k) collapse_nonconsecutive_columns(a, a, dd, s); else collapse_consecutive_columns(a, a, dd, s); c.ret(); c.out("c", a); }
    else { c.in("a", a); c.call();
      if (c.r.one(2)) { if (k) collapse_nonconsecutive_columns(x, a, dd, s); else collapse_consecutive_columns(x, a, dd, s); }
      else x = k ? collapse_nonconsecutive_columns(a, dd, s) : collapse_consecutive_columns(a, dd, s);
      c.ret(); c.out("c", x); }
    c.end(); return;
  }
  if (k < 5) {
    PM a = c.pmat(m, n, d);
    VecLong cd(n); for (long j = 0; j < n; j++) { cd[j] = -1; for (long i = 0; i < m; i++) cd[j] = std::max(cd[j], deg(a[i][j])); }
    VecLong w(n), t(cd), cols; for (auto& q : w) q = c.r.in(0, c.r.one(4) ? d + 3 : 4);
    if (c.r.one(2)) for (auto& q : t) q = std::max(-1L, q + c.r.in(-4, 6));
    int f = c.r.in(0, 7); long u = c.r.in(0, 6), tt = c.r.in(0, d + 4), dinf = c.r.in(0, d + 2);
    if (f == 1 || f == 3 || f == 6) t = cd;
    if (f == 2 || f == 3 || f == 4) w = VecLong(n, u);
    if (f == 4) t = VecLong(n, tt);
    if (f == 5 || f == 6) { long s = 0; for (long q : t) s += q; w = VecLong(n, 1 + s / n); }
    c.op(f == 7 ? "parlind" : "parlin"); c.val("form", (long)f); c.in("a", a); c.in("w", w); c.in("t", t); if (f == 7) c.val("dinf", dinf);
    c.call();
    switch (f) {
    case 0: cols = column_partial_linearization(x, a, w, t); break;
    case 1: cols = column_partial_linearization_cdeg(x, a, w); break;
    case 2: cols = column_partial_linearization(x, a, u, t); break;
    case 3: cols = column_partial_linearization_cdeg(x, a, u); break;
    case 4: cols = column_partial_linearization(x, a, u, tt); break;
    case 5: cols = column_partial_linearization(x, a, t); break;
    case 6: cols = column_partial_linearization_cdeg(x, a); break;
    default: cols = column_partial_linearization(x, a, w, t, dinf);
    }
    c.ret(); c.out("cols", cols); c.out("c", x); c.end(); return;
  }
  long q = c.r.in(1, 4), da = c.r.in(0, 8), pd = c.r.in(0, 8);
  PM a = c.pmat(m, q, da), b = c.pmat(q, n, d);
  VecLong cd(n); for (long j = 0; j < n; j++) { cd[j] = -1; for (long i = 0; i < q; i++) cd[j] = std::max(cd[j], deg(b[i][j])); }
  long cm = -1; for (long z : cd) cm = std::max(cm, z);
  if (k < 7) {
    int f = c.r.in(0, 3);
    if (c.r.one(2)) for (auto& z : cd) z += c.r.in(0, 3);
    long g = cm + c.r.in(0, 3);
    c.op("plmul"); c.val("form", (long)f); c.in("a", a); c.in("b", b); c.val("w", pd); c.call();
    if (f == 0) right_parlin_multiply(x, a, b, pd, cd); else if (f == 1) right_parlin_multiply(x, a, b, pd); else if (f == 2) right_parlin_multiply(x, a, b, pd, g); else right_parlin_multiply(x, a, b);
    c.ret(); c.out("c", x); c.end(); return;
  }
  long dA = std::max(0L, deg(a)) + (c.r.one(2) ? 0 : c.r.in(0, 4)), dB = std::max(0L, c.r.in(cm - dA - 2, cm - dA + 5));
  int f = c.r.in(0, 1); if (c.r.one(2)) for (auto& z : cd) z += c.r.in(0, 3);
  long g = cm + c.r.in(0, 3);
  c.op("plmp"); c.in("a", a); c.in("b", b); c.val("w", pd); c.val("da", dA); c.val("db", dB); c.call();
  if (f) right_parlin_middle_product(x, a, b, pd, cd, dA, dB); else right_parlin_middle_product(x, a, b, pd, g, dA, dB);
  c.ret(); c.out("c", x); c.end();
}
static long ncases(bool deep) { return deep ? 80000 : 8000; }
Suite THE_SUITE = {"C12", run, ncases};
