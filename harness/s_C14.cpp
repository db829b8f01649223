// C14: Chinese remaindering and subproduct trees.
#include "core.h"
#include <NTL/lzz_pXFactoring.h>
#include "lzz_pX_CRT.h"
// exhaustive small scopes: all pairwise coprime squarefree moduli of small degree
static void small(Ctx& c) {
  Small S(c); Vec<zz_pX> q = S.F[0]; zz_pX g = S.G[0][0]; long n = q.length(), tot = 0;
  for (long i = 0; i < n; i++) { if (deg(q[i]) < 1 || diff(q[i]) == 0 || deg(GCD(q[i], diff(q[i]))) != 0) return; tot += deg(q[i]); for (long j = 0; j < i; j++) if (deg(GCD(q[i], q[j])) > 0) return; }
  c.op("crt.new"); c.val("id", 0L); c.in("q", q); c.call();
  zz_pX_CRT o(q); long len = o.length(); Vec<zz_pX> mods, v; mods.SetLength(n); for (long i = 0; i < n; i++) o.moduli(mods[i], i); zz_pX ms, f; o.master(ms);
  c.ret(); c.out("len", len); c.out("mods", mods); c.out("master", ms); c.end();
  c.op("crt.mod"); c.val("id", 0L); c.in("f", g); c.call(); o.multimod(v, g); c.ret(); c.out("c", v); c.end();
  for (long i = 0; i < n; i++) v[i] = i % 2 ? trunc(RightShift(g, 1), deg(q[i])) : trunc(g, deg(q[i]));
  c.op("crt.comb"); c.val("id", 0L); c.in("v", v); c.call(); o.combine(f, v); c.ret(); c.out("c", f); c.end();
}
static void run(Ctx& c) {
  if (!c.tok.empty()) { small(c); return; }
  c.prime(); long n = c.r.one(4) ? c.r.in(1, 24) : c.r.in(1, 9), dmax = c.r.one(5) ? 40 : c.r.one(2) ? 2 : 8;
  if (c.r.one(8)) {
    Vec<zz_pX> q = c.pvec(n, dmax); Vec<Vec<zz_pX>> t; if (c.r.one(2)) { t.SetLength(c.r.in(0, 6)); for (auto& x : t) x = c.pvec(c.r.in(0, 12), 5); }
    c.op("subtree"); c.in("q", q); c.call(); build_subproduct_tree(t, q); c.ret(); c.out("c", t); c.end(); return;
  }
  // pairwise coprime squarefree moduli, of uneven degrees, not always monic
  Vec<zz_pX> q; long tries = 0;
  while (q.length() < n && tries++ < 300) {
    zz_pX f = c.r.one(3) ? c.poly(c.r.in(1, dmax)) : c.dense(c.r.in(1, c.r.one(2) ? 2 : dmax)); if (c.r.one(2) && deg(f) > 0) MakeMonic(f);
    if (c.r.one(6)) { f = 0; SetCoeff(f, 1); SetCoeff(f, 0, c.elt()); }
    if (deg(f) < 1 || deg(GCD(f, diff(f))) != 0 || diff(f) == 0) continue;
    bool ok = true; for (auto& g : q) if (deg(GCD(f, g)) > 0) ok = false;
    if (ok) append(q, f);
  }
  n = q.length(); if (n == 0) return;
  long tot = 0; for (auto& f : q) tot += deg(f);
  c.op("crt.new"); c.val("id", 0L); c.in("q", q); c.call();
  std::unique_ptr<zz_pX_CRT> o(new zz_pX_CRT(q)); long len = o->length(); Vec<zz_pX> mods; mods.SetLength(n); for (long i = 0; i < n; i++) { mods[i] = c.dense(3); o->moduli(mods[i], i); } zz_pX ms = c.dense(4); o->master(ms);
  c.ret(); c.out("len", len); c.out("mods", mods); c.out("master", ms); c.end();
  if (c.r.one(3)) { zz_pX_CRT* d = new zz_pX_CRT(*o); o.reset(d); }
  for (long it = c.r.in(2, 6); it > 0; it--) {
    if (c.r.one(2)) {
      zz_pX f = c.r.one(4) ? c.poly(c.r.in(tot, 3 * tot + 4)) : c.r.one(3) ? c.poly(c.r.in(-1, tot)) : c.dense(c.r.in(tot - 1, tot + 3)); if (c.r.one(8)) f = ms * c.poly(3); Vec<zz_pX> v; if (c.r.one(2)) v = c.pvec(c.r.in(0, n + 4), 9);
      c.op("crt.mod"); c.val("id", 0L); c.in("f", f); c.call(); o->multimod(v, f); c.ret(); c.out("c", v); c.end();
    } else {
      Vec<zz_pX> v; v.SetLength(n); bool un = c.r.one(4); for (long i = 0; i < n; i++) v[i] = c.r.one(6) ? zz_pX() : un ? c.poly(deg(q[i]) + c.r.in(-1, 4)) : c.poly(deg(q[i]) - 1); zz_pX f = c.r.one(2) ? zz_pX() : c.dense(9);
      c.op("crt.comb"); c.val("id", 0L); c.in("v", v); c.call(); o->combine(f, v); c.ret(); c.out("c", f); c.end();
    }
  }
}
static long ncases(bool deep) { return deep ? 30000 : 3000; }
Suite THE_SUITE = {"C14", run, ncases};
