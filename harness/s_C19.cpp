// C19: sequences over power series and their annihilators.
#include "core.h"
#include <lzz_pX_seq.h>
using namespace NTL; using namespace PML;
typedef Vec<Vec<zz_pX>> Seq;
typedef Vec<Vec<zz_pX>> Gens;
static Seq wrap(const Vec<zz_pX>& v) { Seq s; s.SetLength(v.length()); for (long i = 0; i < v.length(); i++) { s[i].SetLength(1); s[i][0] = v[i]; } return s; }
static Vec<zz_pX> first(const Seq& s) { Vec<zz_pX> v; v.SetLength(s.length()); for (long i = 0; i < s.length(); i++) v[i] = s[i][0]; return v; }
static Gens reps(const Vec<zz_pXY>& g) { Gens r; r.SetLength(g.length()); for (long i = 0; i < g.length(); i++) { zz_pXY f = g[i]; f.normalize(); r[i] = f.rep; } return r; }
static zz_pX ser1(Ctx& c, long d, long kind) {   // an element of K[x]/x^d: nilpotent, sparse or dense
  if (kind == 0) return zz_pX();
  zz_pX f = c.poly(d - 1); if (kind == 2) f = trunc(LeftShift(f, c.r.in(0, d)), d); if (kind == 3 && c.r.one(2)) clear(f); return f;
}
// sequences: generic, nilpotent, sparse, zero, linearly recurrent (from a random or nilpotent recurrence), late start
static Seq seqof(Ctx& c, long L, long tau, long d) {
  Seq S; S.SetLength(L); long kind = c.r.one(12) ? 0 : c.r.in(1, 3), style = c.r.in(0, 5), r = c.r.in(1, std::max(1L, L / 2));
  Vec<zz_pX> rec; rec.SetLength(r); for (long i = 0; i < r; i++) rec[i] = ser1(c, d, c.r.one(2) ? 2 : kind);
  long late = style == 5 ? c.r.in(0, L) : 0;
  for (long i = 0; i < L; i++) { S[i].SetLength(tau); for (long s = 0; s < tau; s++) {
    if (i < late) continue;
    if ((style == 1 || style == 2) && i >= r) { zz_pX v; for (long k = 0; k < r; k++) v += MulTrunc(rec[k], S[i - 1 - k][s], d); S[i][s] = v; }
    else if (style == 3 && s > 0) S[i][s] = c.r.one(2) ? S[i][0] : trunc(LeftShift(S[i][0], 1), d);
    else S[i][s] = ser1(c, d, kind); } }
  if (style == 4 && c.r.one(2)) for (long i = 0; i < L; i++) for (long s = 0; s < tau; s++) S[i][s] = trunc(LeftShift(S[i][s], 1), d);
  return S;
}
static zz_pXY biv(Ctx& c, long ny, long d) { Vec<zz_pX> v; v.SetLength(ny); for (long i = 0; i < ny; i++) v[i] = ser1(c, d, c.r.in(1, 3)); return zz_pXY(v); }
static void basic(Ctx& c) {
  long d = c.r.in(1, 5), L = c.r.one(8) ? 0 : c.r.in(1, 7), tau = c.r.in(1, 3); bool md = tau > 1 || c.r.one(2); Seq S = seqof(c, L, tau, d), R; Vec<zz_pX> s = first(S), r;
  switch (c.r.in(0, 4)) {
    case 0: { zz_pX f = c.poly(c.r.in(-1, 4)); long tr = c.r.one(2) ? -1 : c.r.in(0, 6); c.op("sq.mulp"); c.val("a", S); c.val("f", f); c.val("d", tr); c.call();
      if (md) R = tr < 0 ? mul(S, f) : mulTrunc(S, f, tr); else r = tr < 0 ? mul(s, f) : mulTrunc(s, f, tr); c.ret(); if (!md) R = wrap(r); c.out("c", R); c.end(); } break;
    case 1: case 2: { zz_pXY f = biv(c, c.r.in(0, 5), 4); long tr = c.r.one(2) ? -1 : c.r.in(0, 6); c.op("sq.mulb"); c.val("a", S); c.val("f", f.rep); c.val("d", tr); c.call();
      if (md) R = tr < 0 ? mul(S, f) : mulTrunc(S, f, tr); else r = tr < 0 ? mul(s, f) : mulTrunc(s, f, tr); c.ret(); if (!md) R = wrap(r); c.out("c", R); c.end(); } break;
    case 3: { Seq T = seqof(c, c.r.one(2) ? L : c.r.in(0, 7), tau, d); Vec<zz_pX> t = first(T); c.op("sq.add"); c.val("a", S); c.val("b", T); c.call(); if (md) R = add(S, T); else r = add(s, t); c.ret(); if (!md) R = wrap(r); c.out("c", R); c.end(); } break;
    default: { bool z = c.r.one(2); if (c.r.one(4)) for (long i = 0; i < L; i++) clear(s[i]); c.op(z ? "sq.zero" : "sq.idx"); c.in("a", s); c.call(); if (z) { bool v = is_zero_seq(s); c.ret(); c.out("ret", v); } else { long v = index_non_zero(s); c.ret(); c.out("ret", v); } c.end(); }
  }
}
static void check(Ctx& c) {        // families from the library itself, sometimes perturbed, and random ones
  long d = c.r.in(1, 4), L = c.r.in(1, 7), tau = c.r.in(1, 3); bool md = tau > 1 || c.r.one(2); Seq S = seqof(c, L, tau, d); Vec<zz_pX> s = first(S); Vec<zz_pXY> g;
  long k = c.r.in(0, 3); if (k < 2) kurakin(d, S, g); else if (k == 2 && L >= 2) berlekamp_massey_pmbasis(d, S, g); else for (long i = c.r.in(0, 3); i > 0; i--) g.append(biv(c, c.r.in(0, 4), d));
  if (c.r.one(2) && g.length()) { zz_pXY& f = g[c.r.in(0, g.length() - 1)]; if (f.degY() >= 0) { f.rep[c.r.in(0, f.degY())] += trunc(LeftShift(c.poly(d - 1), c.r.in(0, d)), d); f.normalize(); } }
  if (c.r.one(4) && g.length()) { zz_pXY f = biv(c, 2, d); mul_naive(g[0], zz_pXY(g[0]), f); }
  long dd = c.r.one(3) ? -1 : c.r.one(4) ? c.r.in(1, d) : d; Gens G = reps(g); for (long i = 0; i < g.length(); i++) g[i].normalize();
  c.op("sq.check"); c.val("a", S); c.val("g", G); c.val("d", dd); c.call();
  bool v = md ? check_cancel(S, g, dd) : check_cancel(s, g, dd); c.ret(); c.out("ret", v); c.end();
}
static void kur(Ctx& c) {
  long d = c.r.one(5) ? c.r.in(5, 7) : c.r.in(1, 4), L = c.r.one(6) ? c.r.in(8, 10) : c.r.in(1, 7), tau = c.r.in(1, 3); bool md = tau > 1 || c.r.one(2); Seq S = seqof(c, L, tau, d); Vec<zz_pX> s = first(S); Vec<zz_pXY> g;
  if (c.r.one(3)) for (long i = c.r.in(0, 3); i > 0; i--) g.append(biv(c, 3, d));      // stale output
  long k = c.r.in(0, 2); c.op(k ? "sq.mkur" : "sq.kur"); c.val("fill", k == 2); c.val("a", S); c.val("d", d); c.val("alg", k); c.call();
  if (k == 0) md ? kurakin(d, S, g) : kurakin(d, s, g); else { md ? modified_kurakin(d, S, g) : modified_kurakin(d, s, g); if (k == 2) fill_in(d, g); }
  c.ret(); Gens G = reps(g); c.out("c", G); c.end();
}
static void bm(Ctx& c) {
  long d = c.r.one(5) ? c.r.in(5, 12) : c.r.in(1, 4), L = c.r.in(2, 9), tau = c.r.in(1, 3); long k = c.r.in(0, 3); if (k == 0) tau = 1; if (k == 3) c.prime_of({P60});
  Seq S = seqof(c, L, tau, d); Vec<zz_pX> s = first(S); Vec<zz_pXY> g; if (c.r.one(3)) for (long i = c.r.in(0, 3); i > 0; i--) g.append(biv(c, 3, d));
  c.op("sq.bm"); c.val("a", S); c.val("d", d); c.val("alg", k); c.val("hnf", k == 2); c.val("form", 3L); c.call();
  k == 0 ? berlekamp_massey_pmbasis(d, s, g) : k == 1 ? berlekamp_massey_pmbasis(d, S, g) : k == 2 ? berlekamp_massey_pmbasis_hnf(d, S, g) : berlekamp_massey_pmbasis_compressed(d, S, g);
  c.ret(); Gens G = reps(g); c.out("c", G); c.end();
}
static void minpoly(Ctx& c) {
  long d = c.r.in(1, 9), L = c.r.in(2, 11); if (c.r.one(2)) c.prime_min(1000);
  Seq S; S.SetLength(L); for (long i = 0; i < L; i++) { S[i].SetLength(1); S[i][0] = ser1(c, d, c.r.one(3) ? c.r.in(0, 3) : 1); } Vec<zz_pX> s = first(S);
  long n = L / 2; Mat<zz_p> H; H.SetDims(n, n); for (long i = 0; i < n; i++) for (long j = 0; j < n; j++) H[i][j] = coeff(s[i + j], 0); if (gauss(H) < n) return;
  zz_pXY P; if (c.r.one(2)) P = biv(c, 3, d); c.op("sq.minpoly"); c.val("a", S); c.val("d", d); c.call(); minpoly_nondegenerate(d, s, P); c.ret(); P.normalize(); c.out("c", P.rep); c.end();
}
// exhaustive small scopes: all short sequences over K[x]/x^d, every algorithm
static void small(Ctx& c) {
  Small S(c); long L = S.m, tau = S.n, d = S.len; Seq A; A.SetLength(L); for (long i = 0; i < L; i++) A[i] = S.F[i]; Vec<zz_pX> s = first(A);
  for (long q = 0; q < 6; q++) {
    bool md = tau > 1 || q % 2; Vec<zz_pXY> g; long k = q < 2 ? 0 : q < 4 ? 1 : 2;
    c.op(k ? "sq.mkur" : "sq.kur"); c.val("fill", k == 2); c.val("a", A); c.val("d", d); c.val("alg", k); c.call();
    if (k == 0) md ? kurakin(d, A, g) : kurakin(d, s, g); else { md ? modified_kurakin(d, A, g) : modified_kurakin(d, s, g); if (k == 2) fill_in(d, g); }
    c.ret(); Gens G = reps(g); c.out("c", G); c.end();
    bool v; c.op("sq.check"); c.val("a", A); c.val("g", G); c.val("d", d); c.call(); for (auto& x : g) x.normalize(); v = md ? check_cancel(A, g, d) : check_cancel(s, g, d); c.ret(); c.out("ret", v); c.end();
  }
  for (long k = 0; k < 3; k++) { if (k == 0 && tau > 1) continue; Vec<zz_pXY> g; c.op("sq.bm"); c.val("a", A); c.val("d", d); c.val("alg", k); c.val("hnf", k == 2); c.val("form", 3L); c.call();
    k == 0 ? berlekamp_massey_pmbasis(d, s, g) : k == 1 ? berlekamp_massey_pmbasis(d, A, g) : berlekamp_massey_pmbasis_hnf(d, A, g); c.ret(); Gens G = reps(g); c.out("c", G); c.end(); }
}
static void run(Ctx& c) {
  if (!c.tok.empty()) { small(c); return; }
  c.prime(); switch (c.r.in(0, 9)) { case 0: case 1: basic(c); break; case 2: check(c); break; case 3: case 4: case 5: case 6: kur(c); break; case 7: case 8: bm(c); break; default: minpoly(c); }
}
static long ncases(bool deep) { return deep ? 40000 : 3000; }
Suite THE_SUITE = {"C19", run, ncases};
