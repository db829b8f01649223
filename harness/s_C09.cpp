// C09: rational linear systems.
#include "core.h"
#include "mat_lzz_pX_extra.h"
#include "mat_lzz_pX_linsolve.h"
#include <iostream>
#include <sstream>
typedef Mat<zz_pX> PM; typedef Vec<zz_pX> PV;
struct Quiet { std::streambuf* b; std::ostringstream o; Quiet() { b = std::cout.rdbuf(o.rdbuf()); } ~Quiet() { std::cout.rdbuf(b); } };
static PV rhs(Ctx& c, const PM& a, long db) {
  long n = a.NumRows(); PV b;
  switch (c.r.in(0, 5)) {
  case 0: { PV x = c.pvec(a.NumCols(), c.r.in(0, 3)); b.SetLength(n); for (long i = 0; i < n; i++) for (long j = 0; j < a.NumCols(); j++) b[i] += a[i][j] * x[j]; break; } // polynomial solution
  case 1: { b.SetLength(n); if (n) { zz_pX t = c.poly(db); b[c.r.in(0, n - 1)] = t; } break; }
  case 2: { b.SetLength(n); for (long i = 0; i < n; i++) b[i] = c.dense(db); break; }
  case 3: { b.SetLength(n); long j = c.r.in(0, a.NumCols() - 1); zz_pX t = c.poly(1); for (long i = 0; i < n; i++) b[i] = a[i][j] * t; break; }
  default: b = c.pvec(n, db);
  }
  return b;
}
static PV dirtyv(Ctx& c) { return c.r.one(2) ? PV() : c.pvec(c.r.in(0, 5), 4); }
// exhaustive small scopes
static void small(Ctx& c) {
  Small S(c); PV b, u; b.SetLength(S.r2); for (long i = 0; i < S.r2; i++) b[i] = S.G[i][0]; zz_pX den;
  c.op("linker"); c.val("alg", "via_kernel"); c.in("a", S.F); c.in("b", b); c.call();
  long ret; { Quiet q; ret = linsolve_via_kernel(u, den, S.F, b); }
  c.ret(); c.out("ret", ret); if (ret == 1) { c.out("u", u); c.out("den", den); } c.end();
}
static void run(Ctx& c) {
  if (!c.tok.empty()) { small(c); return; }
  if (c.idx % 2 == 0) {
    c.prime_of({P59, P60, PFFT, P45});
    long n = c.r.in(1, c.r.one(4) ? 8 : 4), d = c.r.in(0, c.r.one(4) ? 12 : 4), db = c.r.in(0, c.r.one(3) ? 3 * d + 2 : d + 1);
    PM a = c.pmat_invct(n, d); PV b = rhs(c, a, db), u = dirtyv(c); zz_pX den = c.poly(5);
    if (c.r.one(15)) for (long i = 0; i < n; i++) clear(b[i]);
    bool al = c.r.one(4); long nb = c.r.one(2) ? -1 : 1;
    c.op("linser"); c.val("alg", "via_series"); c.val("al", al); c.in("a", a); if (al) c.val("b", b); else c.in("b", b); c.val("nb", nb); c.call();
    PV& o = al ? b : u; if (nb == -1) linsolve_via_series(o, den, a, b); else linsolve_via_series(o, den, a, b, nb);
    c.ret(); c.out("u", o); c.out("den", den); c.end();
  } else {
    c.prime();
    long n = c.r.in(1, 6), m = n, d = c.r.in(0, c.r.one(4) ? 8 : 3), db = c.r.in(0, c.r.one(3) ? 3 * d + 4 : d + 1);
    PM a;
    switch (c.r.in(0, 7)) {
    case 0: a = c.pmat_invct(n, d); break;
    case 1: a = c.pmat_rank(n, n, d, c.r.in(0, n)); break;
    case 2: m = c.r.in(1, 6); a = c.pmat(m, n, d); break;
    case 3: m = c.r.in(1, 6); a = c.pmat_rank(m, n, d, c.r.in(0, std::min(m, n))); break;
    case 4: { a.SetDims(n, n); for (long i = 0; i < n; i++) { a[i][i] = c.poly_exact(c.r.in(0, d)); for (long j = i + 1; j < n; j++) a[i][j] = c.poly(d); } break; } // triangular
    default: a = c.pmat_nonsing(n, d);
    }
    PV b = rhs(c, a, db), u = dirtyv(c); zz_pX den = c.poly(5);
    if (c.r.one(15)) for (long i = 0; i < b.length(); i++) clear(b[i]);
    c.op("linker"); c.val("alg", "via_kernel"); c.in("a", a); c.in("b", b); c.call();
    long ret; { Quiet q; ret = linsolve_via_kernel(u, den, a, b); }
    c.ret(); c.out("ret", ret); if (ret == 1) { c.out("u", u); c.out("den", den); } c.end();
  }
}
static long ncases(bool deep) { return deep ? 30000 : 4000; }
Suite THE_SUITE = {"C09", run, ncases};
