// C18: bivariate polynomials and resultants.
#include "core.h"
#include <lzz_pXY.h>
using namespace NTL; using namespace PML;
static long dg(Ctx& c) { return c.r.one(12) ? c.r.in(10, 30) : c.r.one(4) ? 0 : c.r.in(0, 6); }
static Vec<zz_pX> coefs(Ctx& c, long n) {
  Vec<zz_pX> v; v.SetLength(n); long d = dg(c), k = c.r.in(0, 7);
  for (long i = 0; i < n; i++) if (k > 1 || c.r.one(3)) v[i] = k == 7 ? LeftShift(c.poly(c.r.in(0, d)), c.r.in(0, 4)) : c.poly(k == 6 ? c.r.in(-1, d) : d);
  return v;
}
static zz_pXY bpoly(Ctx& c) { return zz_pXY(coefs(c, c.r.one(8) ? 0 : c.r.one(6) ? 1 : c.r.one(10) ? c.r.in(8, 20) : c.r.in(1, 7))); }
static zz_pXY dirty(Ctx& c) { return c.r.one(2) ? bpoly(c) : zz_pXY(); }
static void binary(Ctx& c) {
  static const char* nm[] = {"bv.add", "bv.sub", "bv.muln", "bv.mulk", "bv.mul", "bv.eq"};
  zz_pXY a = bpoly(c), b = bpoly(c), r = dirty(c); long k = c.r.in(0, 5), al = c.r.in(0, 7);
  if (c.r.one(5)) { b = a; if (c.r.one(2) && !b.is_zero()) { b.rep[c.r.in(0, b.degY())] += c.elt(); b.normalize(); } }     // cancellations
  if (c.r.one(8) && k != 5) { b = zz_pXY(); zz_pXY t = bpoly(c); sub(b, t, a); }
  if (al == 2 && c.r.one(2)) b = a;
  c.op(nm[k]); c.val("a", a.rep); c.val("b", b.rep);
  auto go = [&](zz_pXY& r, const zz_pXY& a, const zz_pXY& b) { c.call(); k == 0 ? add(r, a, b) : k == 1 ? sub(r, a, b) : k == 2 ? mul_naive(r, a, b) : k == 3 ? mul_kronecker(r, a, b) : mul(r, a, b); };
  if (k == 5) { c.call(); long e = a == b, f = a != b; c.ret(); c.out("ret", (bool)e); c.out("ne", (bool)f); c.end(); return; }
  if (al == 0) { r = a; go(r, r, b); } else if (al == 1) { r = b; go(r, a, r); } else if (al == 2 && a == b) { r = a; go(r, r, r); } else go(r, a, b);
  c.ret(); c.out("c", r.rep); c.end();
}
static void unary(Ctx& c) {
  static const char* nm[] = {"bv.shx", "bv.shy", "bv.tx", "bv.ty"};
  zz_pXY a = bpoly(c), r = dirty(c); bool al = c.r.one(3);
  switch (c.r.in(0, 6)) {
    case 0: case 1: case 2: { long k = c.r.in(0, 3), s = k < 2 ? c.r.in(-9, 6) : c.r.in(0, 8); c.op(nm[k]); c.val("a", a.rep); c.val("s", s); if (al) r = a; const zz_pXY& x = al ? r : a; c.call();
      k == 0 ? shift_x(r, x, s) : k == 1 ? shift_y(r, x, s) : k == 2 ? trunc_x(r, x, s) : trunc_y(r, x, s); c.ret(); c.out("c", r.rep); c.end(); } break;
    case 3: { zz_p s = c.elt(); c.op("bv.smul"); c.val("a", a.rep); c.val("s", s); if (al) r = a; c.call(); mul(r, al ? r : a, s); c.ret(); c.out("c", r.rep); c.end(); } break;
    case 4: { zz_p s = c.elt(); zz_pX v; if (c.r.one(2)) v = c.poly(6); c.op("bv.eval"); c.val("a", a.rep); c.val("s", s); c.call(); evaluate(v, a, s); c.ret(); c.out("c", v); c.end(); } break;
    case 5: { long i = c.r.in(0, 9); zz_pX x = c.poly(c.r.in(-1, 4)); c.op("bv.setc"); c.val("a", a.rep); c.val("k", i); c.val("x", x); r = a; c.call(); SetCoeff(r, i, x); c.ret(); c.out("c", r.rep); c.end(); } break;
    default: { c.op("bv.deg"); c.val("a", a.rep); c.call(); long t = a.tdeg(), x = a.degX(), y = a.degY(); bool z = a.is_zero(); c.ret(); c.out("t", t); c.out("x", x); c.out("y", y); c.out("z", z); c.end(); }
  }
}
static void conv(Ctx& c) {
  switch (c.r.in(0, 4)) {
    case 0: { Vec<zz_pX> v = coefs(c, c.r.in(0, 6)); c.op("bv.new"); c.in("v", v); c.call(); zz_pXY f(v); c.ret(); c.out("c", f.rep); c.end(); } break;
    case 1: { zz_pX v = c.poly(c.r.in(-1, 4)); Vec<zz_pX> w; w.SetLength(1); w[0] = v; c.op("bv.new"); c.val("v", w); c.call(); zz_pXY f(v); c.ret(); c.out("c", f.rep); c.end(); } break;
    case 2: { bool k = c.r.one(2); Vec<zz_pX> v = coefs(c, c.r.in(0, 6)); zz_pXY f(v); if (!k) v = f.rep; long d = 0; for (long i = 0; i < v.length(); i++) d = std::max(d, deg(v[i])); d += c.r.one(2) ? 0 : c.r.in(0, 5); zz_pX r; if (c.r.one(2)) r = c.poly(20);
      c.op("bv.kron"); c.val("v", v); c.val("s", d); c.call(); k ? to_kronecker(r, v, d) : to_kronecker(r, f, d); c.ret(); c.out("c", r); c.end(); } break;
    case 3: { bool k = c.r.one(2); zz_pX a = c.poly(c.r.in(-1, 25)); long d = c.r.in(0, 7); Vec<zz_pX> r; zz_pXY f = dirty(c); if (c.r.one(2)) r = coefs(c, 5);
      c.op("bv.unkron"); c.val("a", a); c.val("s", d); c.call(); k ? from_kronecker(r, a, d) : from_kronecker(f, a, d); c.ret(); c.out("c", k ? r : f.rep); c.end(); } break;
    default: { long dx = c.r.in(0, 4), dy = c.r.in(0, 5); zz_pXY f = dirty(c); c.op("bv.rand"); c.val("dx", dx); c.val("dy", dy); c.call(); random_zz_pXY(f, dx, dy); c.ret(); c.out("c", f.rep); c.end(); }
  }
}
static void res(Ctx& c, bool gen) {
  static const char* nm[] = {"ei", "villard", "tdeg"};
  long k = c.r.in(0, 2), n1, n2, d = c.r.in(0, 3); zz_pXY f, g;
  if (gen) {       // dense random operands over a huge field
    n1 = c.r.one(6) ? c.r.in(8, 12) : c.r.one(40) ? 27 : c.r.in(1, 7); n2 = c.r.one(2) ? n1 : n1 >= 8 ? c.r.in(2, 12) : c.r.in(1, 7); if (n1 == 27) { n2 = 27; d = 1; } 
    f.rep.SetLength(n1 + 1); g.rep.SetLength(n2 + 1); long t1 = std::max(n1, c.r.in(1, n1)), t2 = n2;
    for (long i = 0; i <= n1; i++) f.rep[i] = random_zz_pX(1 + (k == 2 ? t1 - i : d));
    for (long i = 0; i <= n2; i++) g.rep[i] = random_zz_pX(1 + (k == 2 ? t2 - i : d));
    if (c.r.one(5)) {    // a leading coefficient vanishes at 1, the first of the geometric points
      zz_pX& l = c.r.one(2) ? f.rep[n1] : g.rep[n2]; zz_p s; for (long i = 0; i <= deg(l); i++) s += coeff(l, i); l -= s; if (k) gen = false;
    }
    f.normalize(); g.normalize(); if (f.degY() != n1 || g.degY() != n2) return;
  } else {
    auto small = [&](long n, long d) { Vec<zz_pX> v; v.SetLength(n); for (long i = 0; i < n; i++) if (!c.r.one(4)) v[i] = c.poly(c.r.in(-1, d)); return zz_pXY(v); };
    f = small(c.r.in(1, 5), d); g = small(c.r.in(1, 5), d); if (c.r.one(6)) f = small(1, d); if (c.r.one(6)) g = small(1, d); if (c.r.one(20)) f.zero();
    if (c.r.one(4)) { zz_pXY h = small(c.r.in(1, 3), 1); f = mul_naive(f, h); g = mul_naive(g, h); }
    if (k && f.degY() > 0 && g.degY() > 0) { if (c.r.one(2)) trunc_y(f, f, 1); else trunc_y(g, g, 1); }     // the block algorithms are for generic operands
  }
  zz_pX r; if (c.r.one(2)) r = c.poly(4);
  c.op("bv.res"); c.val("alg", nm[k]); c.val("gen", gen); c.in("f", f.rep); c.in("g", g.rep); c.call(); long s = k == 0 ? resultant(r, f, g) : k == 1 ? resultant_villard(r, f, g) : resultant_villard_tdeg(r, f, g); c.ret(); c.out("ret", s); c.out("c", r); c.end();
}
// leading coefficients (in y) with many roots, over fields barely large enough for the evaluation points
static void roots(Ctx& c) {
  long n1 = c.r.in(1, 3), n2 = c.r.in(1, 3), d1 = c.r.in(0, 8), d2 = c.r.in(0, 8), dr = d1 * n2 + d2 * n1 + 1, p;
  do p = c.P().in(2 * dr + 1, c.r.one(2) ? 4 * dr + 30 : 16 * dr + 60); while (!ProbPrime(p) || p == 2); c.set_p(p);
  auto lc = [&](long d) { zz_pX f; SetCoeff(f, 0, c.nzelt()); for (long i = 0; i < d; i++) { zz_pX r; SetCoeff(r, 1, 1); SetCoeff(r, 0, c.elt()); f *= r; } return f; };
  Vec<zz_pX> a, b; for (long i = 0; i < n1; i++) a.append(c.poly(d1)); for (long i = 0; i < n2; i++) b.append(c.poly(d2));
  long k = c.r.in(0, 2); a.append(k == 0 ? c.poly_exact(c.r.in(0, d1)) : lc(d1)); b.append(k == 1 ? c.poly_exact(c.r.in(0, d2)) : lc(d2));
  if (c.r.one(3)) for (long i = 0; i < n1; i++) a[i] = c.dense(d1);
  zz_pXY f(a), g(b); zz_pX r; if (c.r.one(2)) r = c.poly(4);
  c.op("bv.res"); c.val("alg", "ei"); c.val("gen", false); c.in("f", f.rep); c.in("g", g.rep); c.call(); long s = resultant(r, f, g); c.ret(); c.out("ret", s); c.out("c", r); c.end();
}
// exhaustive small scopes
static void small(Ctx& c) {
  Small S(c); Vec<zz_pX> va = S.F[0], vb = S.G[0]; zz_pXY a(va), b(vb), r; long k = S.k;
  for (int q = 0; q < 6; q++) { static const char* nm[] = {"bv.add", "bv.sub", "bv.muln", "bv.mulk", "bv.mul", "bv.eq"}; c.op(nm[q]); c.val("a", a.rep); c.val("b", b.rep); c.call();
    if (q == 5) { bool e = a == b, f = a != b; c.ret(); c.out("ret", e); c.out("ne", f); c.end(); break; }
    q == 0 ? add(r, a, b) : q == 1 ? sub(r, a, b) : q == 2 ? mul_naive(r, a, b) : q == 3 ? mul_kronecker(r, a, b) : mul(r, a, b); c.ret(); c.out("c", r.rep); c.end(); }
  for (int q = 0; q < 4; q++) { static const char* nm[] = {"bv.shx", "bv.shy", "bv.tx", "bv.ty"}; long s = q < 2 ? (c.idx % 2 ? k : -k) : k; c.op(nm[q]); c.val("a", a.rep); c.val("s", s); c.call();
    q == 0 ? shift_x(r, a, s) : q == 1 ? shift_y(r, a, s) : q == 2 ? trunc_x(r, a, s) : trunc_y(r, a, s); c.ret(); c.out("c", r.rep); c.end(); }
  { c.op("bv.new"); c.in("v", va); c.call(); zz_pXY f(va); c.ret(); c.out("c", f.rep); c.end(); }
  { c.op("bv.deg"); c.val("a", a.rep); c.call(); long t = a.tdeg(), x = a.degX(), y = a.degY(); bool z = a.is_zero(); c.ret(); c.out("t", t); c.out("x", x); c.out("y", y); c.out("z", z); c.end(); }
  // the same operands over a field with enough points
  c.set_p(10007); zz_pX s; c.op("bv.res"); c.val("alg", "ei"); c.val("gen", false); c.in("f", a.rep); c.in("g", b.rep); c.call(); long st = resultant(s, a, b); c.ret(); c.out("ret", st); c.out("c", s); c.end();
}
static void run(Ctx& c) {
  if (!c.tok.empty()) { small(c); return; }
  if (c.r.one(10)) { roots(c); return; }
  if (c.r.one(8)) { c.prime_of({P59, P60}); res(c, true); return; }
  c.prime();
  long k = c.r.in(0, 9); if (k < 4) binary(c); else if (k < 7) unary(c); else if (k == 7) conv(c); else res(c, false);
}
static long ncases(bool deep) { return deep ? 60000 : 6000; }
Suite THE_SUITE = {"C18", run, ncases};
