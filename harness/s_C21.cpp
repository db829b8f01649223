// C21: the library's own certificate checkers.
#include "core.h"
#include "mat_lzz_pX_extra.h"
#include "mat_lzz_pX_approximant.h"
#include "mat_lzz_pX_interpolant.h"
#include "mat_lzz_pX_kernel.h"
#include <set>
#include <iostream>
#include <sstream>
typedef Mat<zz_pX> PM; typedef Mat<zz_p> CM;
struct Quiet { std::streambuf* b; std::ostringstream o; Quiet() { b = std::cout.rdbuf(o.rdbuf()); } ~Quiet() { std::cout.rdbuf(b); } };
static CM ev(const PM& a, zz_p x) { CM r; r.SetDims(a.NumRows(), a.NumCols()); for (long i = 0; i < a.NumRows(); i++) for (long j = 0; j < a.NumCols(); j++) r[i][j] = eval(a[i][j], x); return r; }
static void rowscale(PM& b, long i, const zz_pX& q) { for (long j = 0; j < b.NumCols(); j++) b[i][j] *= q; }
static void rowadd(PM& b, long i, long k, const zz_pX& q) { for (long j = 0; j < b.NumCols(); j++) b[i][j] += q * b[k][j]; }
// perturb a candidate: about a third stay valid
static void mutate(Ctx& c, PM& b) {
  long m = b.NumRows(), n = b.NumCols(); if (m == 0 || n == 0) return;
  long i = c.r.in(0, m - 1), k = c.r.in(0, m - 1);
  switch (c.r.in(0, 16)) {
  case 0: case 1: case 2: case 3: break;
  case 4: rowscale(b, i, zz_pX(c.nzelt())); break;
  case 5: { zz_pX x; SetX(x); rowscale(b, i, x); break; }
  case 6: { zz_pX x; SetX(x); x += c.elt(); rowscale(b, i, x); break; }
  case 7: if (i != k) rowadd(b, i, k, zz_pX(c.nzelt())); break;
  case 8: if (i != k) rowadd(b, i, k, c.poly(2)); break;
  case 9: if (i != k) swap(b[i], b[k]); break;
  case 10: SetCoeff(b[i][c.r.in(0, n - 1)], c.r.in(0, 3), c.elt()); break;
  case 11: b[i][c.r.in(0, n - 1)] += c.elt(); break;
  case 12: { PM d; d.SetDims(m - 1, n); for (long r = 0, w = 0; r < m; r++) if (r != i) d[w++] = b[r]; b = d; break; }
  case 13: if (i != k) b[i] = b[k]; break;
  case 14: for (long j = 0; j < n; j++) clear(b[i][j]); break;
  case 15: { PM d; d.SetDims(m + 1, n); for (long r = 0; r < m; r++) d[r] = b[r]; d[m] = b[i]; b = d; break; }
  case 16: if (n > 1) { PM d; d.SetDims(m, n - 1); for (long r = 0; r < m; r++) for (long j = 0; j + 1 < n; j++) d[r][j] = b[r][j]; b = d; } break;
  }
}
// exhaustive small scopes: every candidate G for every F
static void small(Ctx& c) {
  Small S(c); const PM& a = S.F, &b = S.G; VecLong& s = S.s; bool r; VecLong ord(S.n, S.k);
  for (long f = 1; f <= 4; f++) { c.op("chkapp"); c.in("b", b); c.in("a", a); c.val("ord", ord); c.in("s", s); c.val("form", f); c.val("big", false); c.call();
    r = is_approximant_basis(b, a, S.k, s, (PolMatForm)f, true); c.ret(); c.out("c", r); c.end(); }
  Vec<zz_p> pts; for (long i = 0; i < S.k; i++) append(pts, to_zz_p(i)); long f = 1 + c.idx % 4;
  c.op("chkint"); c.in("b", b); c.in("a", a); c.val("pts", pts); c.in("s", s); c.val("form", f); c.val("byev", false); c.val("geo", false); c.call();
  r = is_interpolant_basis(b, a, pts, s, (PolMatForm)f, false); c.ret(); c.out("c", r); c.end();
}
static void run(Ctx& c) {
  if (!c.tok.empty()) { small(c); return; }
  int k = c.idx % 9;
  PolMatForm f = (PolMatForm)c.r.in(1, 4); bool pop = f == POPOV;
  long m = c.r.in(1, 5), n = c.r.in(1, 5); PM b; bool r = false;
  if (k < 3) {
    c.prime(); bool big = zz_p::modulus() > (1L << 40); long o = c.r.one(5) ? c.r.in(20, 50) : c.r.in(1, 10); if (o > 12) { m = c.r.in(1, 3); n = c.r.in(1, 3); }
    PM a = c.pmat(m, n, o - 1 + c.r.in(0, 3)); VecLong s = c.shift(m, c.r.in(1, 6)), t(s), ord(n, o);
    bool uni = k == 0; long oo = c.r.one(6) ? std::max(1L, o - 1) : c.r.one(6) ? o + 1 : o;   // candidate sometimes for another order
    if (!uni) for (auto& q : ord) q = c.r.in(1, o);
    if (c.r.one(8)) t = c.shift(m, 4);
    VecLong t0(t);
    if (uni) { if (pop) popov_pmbasis(b, a, oo, t); else pmbasis(b, a, oo, t); } else if (pop) popov_appbas_iterative(b, a, ord, t, true); else appbas_iterative(b, a, ord, t, true);
    mutate(c, b); if (c.r.one(10)) mutate(c, b);
    c.op("chkapp"); c.in("b", b); c.in("a", a); c.val("ord", ord); c.in("s", s); c.val("form", (long)f); c.val("big", big); c.call();
    if (uni) r = is_approximant_basis(b, a, o, s, f, true); else r = is_approximant_basis(b, a, ord, s, f, true);
    c.ret(); c.out("c", r); c.end(); return;
  }
  if (k < 6) {
    long np = c.r.one(6) ? c.r.in(12, 40) : c.r.in(1, 10); bool geo = c.r.one(2), byev = c.r.one(2);
    c.prime_min(geo ? 6 * np + 10 : np + 1);
    Vec<zz_p> pts; zz_p g;
    if (geo) { for (;;) { g = random_zz_p(); if (IsZero(g)) continue; zz_p x = g; long q = 1; while (q < 2 * np && !IsOne(x)) { x *= g; q++; } if (q >= 2 * np) break; } zz_p q = g * g, x = to_zz_p(1); for (long i = 0; i < np; i++) { append(pts, x); x *= q; } }
    else { std::set<long> seen; while (pts.length() < np) { zz_p x = random_zz_p(); if (seen.insert(rep(x)).second) append(pts, x); } }
    PM a = c.pmat(m, n, geo ? c.r.in(0, np - 1) : np + c.r.in(-1, 3));
    Vec<CM> E; E.SetLength(np); for (long i = 0; i < np; i++) E[i] = ev(a, pts[i]); if (byev && c.r.one(3)) for (long i = 0; i < np; i++) E[i] = c.mat_rank(m, n, c.r.in(0, std::min(m, n)));
    VecLong s = c.shift(m, c.r.in(1, 6)), t(s); if (c.r.one(8)) t = c.shift(m, 4);
    Vec<CM> W(E); Vec<zz_p> wp(pts); if (c.r.one(6) && np > 1) { W.SetLength(np - 1); wp.SetLength(np - 1); }
    if (pop) popov_mbasis(b, W, wp, t); else pmbasis(b, W, wp, t, 0, wp.length());
    mutate(c, b); if (c.r.one(10)) mutate(c, b);
    c.op("chkint"); c.in("b", b); if (byev) { c.in("a", E); } else { c.in("a", a); } c.val("pts", pts); c.in("s", s); c.val("form", (long)f); c.val("byev", byev); c.val("geo", geo); c.call();
    if (geo) r = byev ? is_interpolant_basis_geometric(b, E, g, np, s, f, false) : is_interpolant_basis_geometric(b, a, g, np, s, f, false);
    else r = byev ? is_interpolant_basis(b, E, pts, s, f, false) : is_interpolant_basis(b, a, pts, s, f, false);
    c.ret(); c.out("c", r); c.end(); return;
  }
  c.prime(); bool big = zz_p::modulus() > (1L << 40), rnd = c.r.one(2); m = c.r.in(1, 6); n = c.r.in(1, std::min(4L, m));
  PM a = c.r.one(2) ? c.pmat_rank(m, n, c.r.in(0, 3), c.r.in(0, n)) : c.pmat(m, n, c.r.in(0, 4));
  VecLong s = c.shift(m, c.r.in(1, 5)), t(s), piv; if (c.r.one(8)) t = c.shift(m, 4);
  kernel_basis_via_approximation(b, piv, a, t); mutate(c, b); if (c.r.one(10)) mutate(c, b);
  c.op("chkker"); c.in("b", b); c.in("a", a); c.in("s", s); c.val("form", (long)f); c.val("big", big); c.val("rand", rnd); c.call();
  { Quiet q; r = is_kernel_basis(b, a, s, f, rnd); } c.ret(); c.out("c", r); c.end();
}
static long ncases(bool deep) { return deep ? 80000 : 8000; }
Suite THE_SUITE = {"C21", run, ncases};
