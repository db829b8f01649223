// C23: scalar, univariate and field helpers.
#include "core.h"
#include <lzz_p_extra.h>
#include <lzz_pX_extra.h>
#include <vec_lzz_p_extra.h>
#include <mat_lzz_p_extra.h>
using namespace NTL; using namespace PML;
static bool composite(Ctx& c) { if (!c.r.one(4)) return false; c.set_p(c.r.one(2) ? c.r.pick({4, 6, 8, 9, 12, 15, 16, 25, 27, 35, 49, 77, 105, 121, 143, 1024, 2310}) : c.r.in(4, 3000)); return true; }
static zz_pX full(Ctx& c, long d) { return c.r.one(4) ? c.poly(d) : c.dense(d); }
static void shifts(Ctx& c) {
  if (!composite(c)) c.prime(); long p = zz_p::modulus(), k = c.r.in(0, 3);
  long d = c.r.one(10) ? c.r.in(60, 200) : c.r.one(3) ? c.r.in(-1, 4) : c.r.in(0, 40); zz_p a = c.elt();
  bool units = true; for (long i = 2; i <= d; i++) if (GCD(i, p) != 1) units = false; if (k == 1 && !units) k = 0;
  if (k == 3) { zz_pX f = d < 0 ? zz_pX() : full(c, d), g; if (c.r.one(2)) g = c.poly(20); bool al = c.r.one(3); c.op("sc.shift"); c.val("alg", "free"); c.val("f", f); c.val("a", a); c.call();
    if (al) shift(f, f, a); else if (c.r.one(3)) g = shift(f, a); else shift(g, f, a); c.ret(); c.out("c", al ? f : g); c.end(); return; }
  std::unique_ptr<zz_pX_shift> s; if (k == 0) s.reset(new zz_pX_shift_DAC(d, a)); else if (k == 1) s.reset(new zz_pX_shift_large_characteristic(d, a)); else s = get_shift(d, a);
  for (long n = c.r.in(1, 3); n > 0; n--) {      // the same object, several polynomials
    zz_pX f = c.r.one(6) ? zz_pX() : full(c, c.r.one(2) ? d : c.r.in(-1, d)), g; if (c.r.one(2)) g = c.poly(30); bool al = c.r.one(3);
    c.op("sc.shift"); c.val("alg", k); c.val("d", d); c.val("f", f); c.val("a", a); c.call(); if (al) s->shift(f, f); else s->shift(g, f); c.ret(); c.out("c", al ? f : g); c.end();
  }
}
static void vecs(Ctx& c) {
  if (!composite(c)) c.prime(); long p = zz_p::modulus(), n = c.r.one(5) ? c.r.in(0, 2) : c.r.in(1, 30); Vec<zz_p> v; v.SetLength(n);
  if (c.r.one(4)) { for (long i = 0; i < n; i++) v[i] = c.elt(); long x = rep(c.elt()); Vec<mulmod_precon_t> q; if (c.r.one(2)) q.SetLength(3); Vec<zz_p> w; w.SetLength(n);
    c.op("sc.precomp"); c.in("a", v); c.val("x", to_zz_p(x)); c.call(); if (c.r.one(2)) q = precomp(v); else precomp(q, v); c.ret(); if (q.length() != n) { w.SetLength(n + 1); } else for (long i = 0; i < n; i++) w[i].LoopHole() = MulModPrecon(x, rep(v[i]), p, q[i]); c.out("c", w); c.end(); return; }
  for (long i = 0; i < n; i++) do v[i] = c.nzelt(); while (GCD(rep(v[i]), p) != 1);
  Vec<zz_p> w; if (c.r.one(2)) w = c.vec(c.r.in(0, 9)); bool nv = c.r.one(3), al = c.r.one(3);
  c.op("sc.inv"); c.val("a", v); c.val("alg", nv); c.call(); if (al) nv ? inv_naive(v, v) : inv(v, v); else if (nv) inv_naive(w, v); else if (c.r.one(2)) w = inv(v); else inv(w, v); c.ret(); c.out("c", al ? v : w); c.end();
}
static void orders(Ctx& c) {
  if (c.r.one(2)) {
    if (!composite(c)) c.prime_of({P2, PTINY, PSMALL, PSMALL, P16}); zz_p a = c.elt(); if (c.r.one(3)) a = power(a, c.r.pick({2, 3, 4, 6, 8})); 
    c.op("sc.order"); c.val("a", a); c.call(); long o = order(a); c.ret(); c.out("ret", o); c.end();
  } else {
    bool cm = composite(c); if (!cm) c.prime(); long p = zz_p::modulus(); long n = c.r.one(4) ? c.r.in(1, std::min(2L, p - 1)) : p < 300 && c.r.one(2) ? c.r.in(1, p - 1) : c.r.in(1, std::min(p - 1, 60L)), tr = c.r.one(3) ? c.r.in(0, 5) : 100; bool st = !c.r.one(3); if (c.r.one(3)) { st = true; tr = 100; }
    zz_p a = c.elt(); c.op("sc.elt"); c.val("ord", n); c.val("tr", tr); c.val("strong", st); c.call();
    if (st && tr == 100 && c.r.one(2)) a = element_of_order(n); else if (c.r.one(2)) element_of_order(a, n, tr, st); else a = element_of_order(n, tr, st); c.ret(); c.out("c", a); c.end();
  }
}
static void misc(Ctx& c) {
  switch (c.r.in(0, 5)) {
    case 0: { int cls = c.r.in(0, NCLS - 1); c.prime_cls(cls); std::vector<bool> rd; c.op("sc.fft"); c.val("fft", cls == PFFT || cls == PUFFT || cls == PLOW); c.call(); bool f = is_FFT_prime(); long t = type_of_prime(); Vec<long> dummy; std::string o; 
      for (long k = 0; k < 34; k++) rd.push_back(is_FFT_ready(k)); c.ret(); c.out("isfft", f); c.out("type", t); std::string s; for (bool b : rd) { s += s.empty() ? "[" : ","; s += b ? "true" : "false"; } s += "]"; c.buf += ",\"ready\":" + s; c.end(); } break;
    case 1: { c.prime(); zz_pX a = c.poly(c.r.in(-1, 6)); if (c.r.one(2)) MakeMonic(a); c.op("sc.monic"); c.val("a", a); c.call(); bool b = is_monic(a); c.ret(); c.out("ret", b); c.end(); } break;
    case 2: { c.prime(); long n = c.r.in(0, 7); zz_p a = c.elt(); c.op("sc.Z"); c.val("n", n); c.val("a", a); c.call(); Mat<zz_p> M = Z_lzz_p(n, a); c.ret(); c.out("c", M); c.end(); } break;
    case 3: { c.prime(); long n = c.r.in(0, 7); c.op("sc.J"); c.val("n", n); c.call(); Mat<zz_p> M = J_lzz_p(n); c.ret(); c.out("c", M); c.end(); } break;
    case 4: { c.prime(); Vec<zz_p> v = c.vec(c.r.in(0, 7)); c.op("sc.diag"); c.in("a", v); c.call(); Mat<zz_p> M = diagonal_matrix(v); c.ret(); c.out("c", M); c.end(); } break;
    default: { c.prime(); Mat<zz_p> M = c.mat(c.r.in(0, 6), c.r.in(0, 6)); long a = c.r.in(0, 7), b = c.r.in(0, 7), x = c.r.in(0, 8), y = c.r.in(0, 8); c.op("sc.clear"); c.val("a", M); c.val("r0", a); c.val("c0", b); c.val("nr", x); c.val("nc", y); c.call(); clear(M, a, b, x, y); c.ret(); c.out("c", M); c.end(); }
  }
}
static void run(Ctx& c) { switch (c.r.in(0, 6)) { case 0: case 1: shifts(c); break; case 2: vecs(c); break; case 3: case 4: orders(c); break; default: misc(c); } }
static long ncases(bool deep) { return deep ? 100000 : 8000; }
Suite THE_SUITE = {"C23", run, ncases};
