// C06: interpolant bases.
#include "core.h"
#include "mat_lzz_pX_extra.h"
#include "mat_lzz_pX_interpolant.h"
#include <set>
typedef Mat<zz_pX> PM; typedef Mat<zz_p> CM;
static PM dirty(Ctx& c) { return c.r.one(2) ? PM() : c.pmat_dense(c.r.in(0, 4), c.r.in(0, 4), c.r.in(0, 6)); }
static Vec<zz_p> points(Ctx& c, long n) {
  Vec<zz_p> v; std::set<long> seen; int mode = c.r.in(0, 3);
  while (v.length() < n) {
    zz_p x; switch (mode) { case 0: x = to_zz_p(v.length()); break; case 1: x = c.elt(); if (c.r.one(3)) x = random_zz_p(); break; default: x = random_zz_p(); }
    if (seen.insert(rep(x)).second) append(v, x); else if (mode == 1) { x = to_zz_p(c.r.next() % zz_p::modulus()); if (seen.insert(rep(x)).second) append(v, x); }
  }
  return v;
}
static CM ev(const PM& a, zz_p x) { CM r; r.SetDims(a.NumRows(), a.NumCols()); for (long i = 0; i < a.NumRows(); i++) for (long j = 0; j < a.NumCols(); j++) r[i][j] = eval(a[i][j], x); return r; }
// r such that the powers of r^2 have at least n distinct values (order of r >= 2n)
static zz_p geo(Ctx& c, long n) {
  for (;;) { zz_p r = random_zz_p(); if (IsZero(r)) continue; zz_p x = r; long k = 1; while (k < 2 * n && !IsOne(x)) { x *= r; k++; } if (k >= 2 * n) return r; }
}
// exhaustive small scopes: every algorithm, at the first k elements of the field
static void small(Ctx& c) {
  Small S(c); const PM& a = S.F; long np = S.k; Vec<zz_p> pts; for (long i = 0; i < np; i++) append(pts, to_zz_p(S.hp ? i + 1 : i)); PM b; zz_p r;
  Vec<CM> E; E.SetLength(np); for (long i = 0; i < np; i++) E[i] = ev(a, pts[i]);
  const char* nm[] = {"mbasis_rescomp", "mbasis_resupdate", "mbasis", "pmbasis", "pmbasis_evals", "popov_pmbasis", "popov_mbasis"};
  for (int k = 0; k < 7; k++) {
    bool byev = k <= 2 || k == 4 || k == 6, pop = k >= 5; VecLong t(S.s); Vec<CM> W(E);
    c.op("intbas"); c.val("alg", nm[k]); if (byev) { c.val("a", E); } else c.in("a", a);
    c.val("off", 0); c.val("n", np); c.val("s", S.s); c.val("form", pop ? 4 : 3); c.val("byev", byev); c.val("geo", false); c.val("first", false); c.val("r", r); if (S.hp) c.val("pred", S.pred); c.in("pts", pts); c.call();
    switch (k) {
    case 0: mbasis_rescomp(b, W, pts, t, 0, np); break;
    case 1: mbasis_resupdate(b, W, pts, t, 0, np); break;
    case 2: mbasis(b, W, pts, t); break;
    case 3: pmbasis(b, a, pts, t); break;
    case 4: pmbasis(b, W, pts, t, 0, np); break;
    case 5: popov_pmbasis(b, a, pts, t); break;
    default: popov_mbasis(b, W, pts, t); }
    c.ret(); c.out("c", b); c.out("t", t); c.end();
  }
}
static void run(Ctx& c) {
  if (!c.tok.empty()) { small(c); return; }
  int k = c.idx % 12;
  int sz = c.r.in(0, 19); long m, n, np;
  if (sz < 13) { m = c.r.in(1, 5); n = c.r.in(1, 5); np = c.r.in(1, 12); }
  else if (sz < 17) { m = c.r.in(1, 3); n = c.r.in(1, 3); np = c.r.in(25, c.deep ? 150 : 80); }
  else { m = c.r.in(5, 12); n = c.r.in(1, 8); np = c.r.in(1, 5); }
  if (k == 11 && c.r.one(3)) { m = c.r.in(21, 22); n = m - 1; np = c.r.in(6, 8); }
  bool isgeo = k >= 8 && k <= 10;
  long off = 0, tot = np;
  bool byev = (k <= 3 || k == 6 || k == 9 || k == 11);
  if (byev && (k == 0 || k == 1 || k == 2 || k == 6 || k == 9) && c.r.one(2)) { off = c.r.in(0, 4); tot = off + np + c.r.in(0, 3); }
  c.prime_min(isgeo ? 6 * tot + 10 : tot + c.r.in(0, 2));
  PM b = dirty(c);
  zz_p r; Vec<zz_p> pts;
  if (isgeo) { r = geo(c, tot); zz_p q = r * r, x = to_zz_p(1); for (long i = 0; i < tot; i++) { append(pts, x); x *= q; } }
  else pts = points(c, tot);
  long d = c.r.one(3) ? c.r.in(0, 2) : np - 1;
  if (isgeo && d >= np) d = np - 1;
  if (!isgeo && c.r.one(4)) d = np + c.r.in(0, 5);
  PM a = c.pmat(m, n, d);
  // degenerate evaluations
  if (c.r.one(3)) for (long t = 0; t < 2; t++) { // multiply some entries by (X - pt)
    zz_pX f; SetX(f); f -= pts[c.r.in(0, tot - 1)]; bool all = c.r.one(2); long row = c.r.in(0, m - 1);
    for (long i = 0; i < m; i++) if (all || i == row) for (long j = 0; j < n; j++) if (deg(a[i][j]) < (isgeo ? np - 1 : np + 5)) a[i][j] *= f; }
  Vec<CM> E; E.SetLength(tot); for (long i = 0; i < tot; i++) E[i] = ev(a, pts[i]);
  if (byev && c.r.one(3)) for (long i = 0; i < tot; i++) E[i] = c.r.one(3) ? c.mat_rank(m, n, c.r.in(0, std::min(m, n))) : c.mat(m, n);
  VecLong s = c.shift(m, c.r.in(1, c.r.one(4) ? 30 : 6)), t(s);
  const char* nm[] = {"mbasis_rescomp", "mbasis_resupdate", "mbasis_off", "mbasis", "pmbasis", "pmbasis", "pmbasis_evals", "popov_pmbasis", "pmbasis_geometric", "pmbasis_geometric_evals", "pmbasis_geometric", "popov_mbasis"};
  bool pop = k == 7 || k == 11;
  c.op("intbas"); c.val("alg", nm[k]); if (byev) { c.val("a", E); } else c.in("a", a);
  bool outpts = k == 8 || k == 10;
  c.val("off", off); c.val("n", np); c.val("s", s); c.val("form", pop ? 4 : 3); c.val("byev", byev); c.val("geo", isgeo); c.val("first", outpts); c.val("r", r);
  if (!outpts) c.in("pts", pts);
  c.call();
  Vec<zz_p> op; if (c.r.one(2)) op = c.vec(3);
  switch (k) {
  case 0: { const Vec<CM> CE(E); mbasis_rescomp(b, CE, pts, t, off, np); break; }
  case 1: mbasis_resupdate(b, E, pts, t, off, np); break;
  case 2: mbasis(b, E, pts, t, off, np); break;
  case 3: mbasis(b, E, pts, t); break;
  case 4: case 5: pmbasis(b, a, pts, t); break;
  case 6: pmbasis(b, E, pts, t, off, np); break;
  case 7: popov_pmbasis(b, a, pts, t); break;
  case 8: case 10: pmbasis_geometric(b, a, r, np, t, op); break;
  case 9: pmbasis_geometric(b, E, pts, r, t, off, np); break;
  case 11: popov_mbasis(b, E, pts, t); break;
  }
  c.ret(); c.out("c", b); c.out("t", t); if (outpts) c.out("pts", op); c.end();
}
static long ncases(bool deep) { return deep ? 40000 : 4000; }
Suite THE_SUITE = {"C06", run, ncases};
