// C13: multipoint evaluation/interpolation objects, their transposes, bilinear transforms.
// Each case is a history: objects are created, copied, reconfigured and used in random order.
#include "core.h"
#include "lzz_p_extra.h"
#include "lzz_pX_CRT.h"
typedef Mat<zz_pX> PM;
typedef zz_pX_Multipoint MP; typedef zz_pX_Multipoint_Geometric MG; typedef zz_pX_Multipoint_General MN; typedef zz_pX_Multipoint_FFT MF;
struct Obj { long id, kind; std::shared_ptr<MP> m; MG* g() { return kind == 1 ? (MG*)m.get() : nullptr; } };
static Vec<zz_p> distinct_pts(Ctx& c, long n) {
  long p = zz_p::modulus(); Vec<zz_p> v; v.SetLength(n); long how = c.r.in(0, 2);
  if (how == 0) { long s = c.r.in(0, p - 1), st = c.r.in(1, p - 1); for (long i = 0; i < n; i++) v[i] = to_zz_p(s) + to_zz_p(i) * to_zz_p(st); return v; }
  if (p < 4 * n) { std::vector<long> a; for (long i = 0; i < p; i++) a.push_back(i); for (long i = 0; i < n; i++) { std::swap(a[i], a[c.r.in(i, p - 1)]); v[i] = a[i]; } return v; }
  for (long i = 0; i < n; i++) for (bool ok = false; !ok; ) { v[i] = (i == 0 && how == 1) ? to_zz_p(0) : (how == 1 && i == 1) ? to_zz_p(p - 1) : to_zz_p(c.r.in(0, p - 1)); ok = true; for (long j = 0; j < i; j++) if (v[j] == v[i]) { ok = false; if (how == 1 && i < 2) how = 2; } }
  return v;
}
static Vec<zz_p> dirtyv(Ctx& c) { return c.r.one(2) ? Vec<zz_p>() : c.vec(c.r.in(0, 30)); }
static zz_pX dirtyp(Ctx& c) { return c.r.one(2) ? zz_pX() : c.dense(c.r.in(0, 30)); }
// exhaustive small scopes: all sets of distinct points, all polynomials
static void small(Ctx& c) {
  Small S(c); long n = S.n; Vec<zz_p> pts, v, w; pts.SetLength(n); for (long i = 0; i < n; i++) { pts[i] = coeff(S.F[0][i], 0); for (long j = 0; j < i; j++) if (pts[i] == pts[j]) return; }
  zz_pX f = S.G[0][0], r; v.SetLength(n); for (long i = 0; i < n; i++) v[i] = coeff(f, n - 1 - i);
  auto all = [&](MP& m, long kind) {
    auto beg = [&](const char* op) { c.op(op); c.val("id", kind); c.val("k0", kind); };
    beg("mp.eval"); c.in("f", f); c.call(); m.evaluate(w, f); c.ret(); c.out("c", w); c.end();
    beg("mp.interp"); c.in("v", v); c.call(); m.interpolate(r, v); c.ret(); c.out("c", r); c.end();
    beg("mp.teval"); c.in("v", v); c.val("n", n); c.call(); m.t_evaluate(r, v); c.ret(); c.out("c", r); c.end();
    beg("mp.tint"); c.in("f", f); c.call(); m.t_interpolate(w, f); c.ret(); c.out("c", w); c.end();
  };
  { c.op("mp.new"); c.val("kind", "general"); c.val("id", 0L); c.val("g", pts); c.val("off", 0L); c.val("n", n); c.call(); MN o(pts); Vec<zz_p> q; o.get_points(q); long len = o.length(), z = 0; zz_p zz; c.ret(); c.out("pts", q); c.out("len", len); c.out("gq", zz); c.out("gs", zz); c.out("fe", z); c.out("fi", z); c.end(); all(o, 0); }
  zz_p x = pts[0], s = n > 1 ? pts[1] : to_zz_p(1); if (x == 0 || s == 0) return;      // geometric: ratio and offset from the first two points
  { zz_p y = x; for (long i = 1; i < 2 * n - 1; i++) { if (y == 1) return; y *= x; } }
  { c.op("mp.new"); c.val("kind", "geometric"); c.val("id", 1L); c.val("r", x); c.val("s", s); c.val("n", n); c.call(); MG o(x, s, n); Vec<zz_p> q; o.get_points(q); long len = o.length(), fe = o.FFT_evaluate(), fi = o.FFT_interpolate(); zz_p gq = o.get_q(), gs = o.get_s(); c.ret(); c.out("pts", q); c.out("len", len); c.out("gq", gq); c.out("gs", gs); c.out("fe", fe); c.out("fi", fi); c.end(); all(o, 1); }
}
static void run(Ctx& c) {
  if (!c.tok.empty()) { small(c); return; }
  if (c.r.one(6)) {   // bilinear transforms
    c.prime(); long k = c.r.in(0, 3), d = k == 0 ? c.r.in(1, 6) : k + 1; std::unique_ptr<zz_pX_Transform> t;
    if (k == 0) t.reset(new zz_pX_Transform_naive(d)); else if (k == 1) t.reset(new zz_pX_Transform_karatsuba()); else if (k == 2) t.reset(new zz_pX_Transform_montgomery3()); else t.reset(new zz_pX_Transform_karatsuba4());
    const char* nm[] = {"naive", "karatsuba", "montgomery3", "karatsuba4"};
    for (int it = 0; it < 3; it++) {
      int w = c.r.in(0, 2);
      if (w == 0) {
        zz_pX a = c.poly(d - 1), b = c.poly(d - 1), f = dirtyp(c); Vec<zz_p> va = dirtyv(c), vb = dirtyv(c);
        c.op("tr.mul"); c.val("alg", nm[k]); c.in("a", a); c.in("b", b); c.call();
        t->forward_left(va, a); t->forward_right(vb, b); Vec<zz_p> vc; vc.SetLength(t->transform_length()); for (long i = 0; i < vc.length(); i++) vc[i] = va[i] * vb[i]; t->backward(f, vc);
        c.ret(); c.out("c", f); c.end();
      } else if (w == 1) {
        long n = c.r.in(1, 4); Vec<zz_pX> a = c.pvec(n, d - 1), b = c.pvec(n, d - 1), f; if (c.r.one(2)) f = c.pvec(c.r.in(0, 5), 9); Vec<Vec<zz_p>> va, vb;
        c.op("tr.mulv"); c.val("alg", nm[k]); c.in("a", a); c.in("b", b); c.call();
        t->forward_left_vector(va, a); t->forward_right_vector(vb, b); for (long i = 0; i < va.length(); i++) for (long j = 0; j < va[i].length(); j++) va[i][j] *= vb[i][j]; t->backward_vector(f, va);
        c.ret(); c.out("c", f); c.end();
      } else {
        long m = c.r.in(1, 3), n = c.r.in(1, 3), q = c.r.in(1, 3); PM a = c.pmat(m, n, d - 1), b = c.pmat(n, q, d - 1), f; if (c.r.one(2)) f = c.pmat(c.r.in(0, 3), c.r.in(0, 3), 9); Vec<Mat<zz_p>> va, vb;
        c.op("tr.mulm"); c.val("alg", nm[k]); c.in("a", a); c.in("b", b); c.call();
        t->forward_left_matrix(va, a); t->forward_right_matrix(vb, b); for (long i = 0; i < va.length(); i++) va[i] = va[i] * vb[i]; t->backward_matrix(f, va);
        c.ret(); c.out("c", f); c.end();
      }
    }
    return;
  }
  long fam = c.r.in(0, 4);   // 0,1: general; 2,3: geometric; 4: FFT (if the field allows)
  bool low = (fam == 2 || fam == 3) && c.r.one(6);      // geometric points beyond what the roots of unity allow
  long p = fam == 4 ? c.prime_of({PFFT, PFFT, PUFFT}) : low ? c.prime_of({PLOW}) : c.prime();
  bool fft_ok = fam == 4;
  std::vector<Obj> objs; long nid = 0;
  long nops = c.r.in(4, 12);
  long big = c.r.one(4) ? (c.r.one(4) && c.deep ? 300 : 70) : c.r.one(2) ? 20 : 6;
  if (low) big = 30;
  for (long it = 0; it < nops; it++) {
    if (objs.empty() || (objs.size() < 3 && c.r.one(6))) {
      long k = objs.empty() ? fam : c.r.in(0, 4); if (k == 4 && !fft_ok) k = c.r.in(0, 3);
      long n = c.r.in(1, big); Obj o; o.id = nid++;
      if (k <= 1) {
        n = std::min(n, p); o.kind = 0;
        if (c.r.one(4)) { c.op("mp.new"); c.val("kind", "get_general"); c.val("id", o.id); c.val("n", n); c.call(); o.m.reset(new MN(get_general_points(n))); }
        else {
          long off = 0, tot = n; bool sub = c.r.one(3); if (sub) { off = c.r.in(0, 3); tot = std::min(p, off + n + c.r.in(0, 3)); if (off >= tot) off = 0; n = std::min(n, tot - off); }
          Vec<zz_p> g = distinct_pts(c, tot); if (!sub) n = tot;
          c.op("mp.new"); c.val("kind", "general"); c.val("id", o.id); c.val("g", g); c.val("off", off); c.val("n", n); c.call();
          if (sub) o.m.reset(new MN(g, off, n)); else o.m.reset(new MN(g));
        }
      } else if (k <= 3) {
        o.kind = 1; while (n > 1 && 2 * n > p - 1) n--;
        if (c.r.one(4) && 2 * n <= p - 1) { c.op("mp.new"); c.val("kind", "get_geometric"); c.val("id", o.id); c.val("n", n); c.call(); o.m.reset(new MG(get_geometric_points(n))); }
        else {
          zz_p r = to_zz_p(1), s = to_zz_p(1); bool found = n == 1;
          // any r whose order is at least 2n-1, odd orders included
          for (int tr = 0; tr < 60 && !found; tr++) { r = c.r.one(4) ? to_zz_p(c.r.in(2, 10)) : c.nzelt(); if (r == 0) continue; found = true; zz_p x = r; for (long i = 1; i < 2 * n - 1; i++) { if (x == 1) { found = false; break; } x *= r; } }
          if (!found) { n = 1; r = 1; }
          if (n == 1) r = c.nzelt();
          bool ws = c.r.one(2); if (ws) s = c.nzelt();
          c.op("mp.new"); c.val("kind", "geometric"); c.val("id", o.id); c.val("r", r); c.val("s", s); c.val("n", n); c.call();
          if (ws) o.m.reset(new MG(r, s, n)); else o.m.reset(new MG(r, n));
        }
      } else {
        o.kind = 2; bool get = c.r.one(2); if (!get) { long q = 1; while (2 * q <= n) q *= 2; n = q; }
        c.op("mp.new"); c.val("kind", get ? "get_fft" : "fft"); c.val("id", o.id); c.val("n", n); c.call();
        if (get) o.m.reset(new MF(get_FFT_points(n))); else o.m.reset(new MF(n));
      }
      Vec<zz_p> pts = dirtyv(c); long len = o.m->length(); if (c.r.one(3)) { pts.SetLength(len); for (long i = len - 1; i >= 0; i--) o.m->get_point(pts[i], i); } else o.m->get_points(pts); zz_p gq, gs; long fe = 0, fi = 0;
      if (o.g()) { gq = o.g()->get_q(); gs = o.g()->get_s(); fe = o.g()->FFT_evaluate(); fi = o.g()->FFT_interpolate(); }
      c.ret(); c.out("pts", pts); c.out("len", len); c.out("gq", gq); c.out("gs", gs); c.out("fe", fe); c.out("fi", fi); c.end();
      objs.push_back(o); continue;
    }
    Obj& o = objs[c.r.in(0, (long)objs.size() - 1)]; MP& m = *o.m; long n = m.length();
    long w = c.r.in(0, o.kind == 1 ? 26 : 17);
    auto lowpoly = [&](){ return c.r.one(3) ? c.poly(c.r.in(-1, n - 1)) : c.r.one(3) ? c.dense(n - 1) : c.poly(n - 1); };
    auto beg = [&](const char* op) { c.op(op); c.val("id", o.id); c.val("k0", o.kind); };
    if (w <= 3) {
      int q = c.r.in(0, 3);
      if (q == 0) { zz_pX f = lowpoly(); Vec<zz_p> v = dirtyv(c); bool al = o.kind == 1 && c.r.one(3);
        if (al) { zz_pX g = dirtyp(c); g = f; beg("mp.eval"); c.val("f", f); c.val("alias", true); c.call(); m.evaluate(g.rep, g); c.ret(); c.out("c", g.rep); c.end(); g.rep.SetLength(0); }
        else { beg("mp.eval"); c.in("f", f); c.call(); m.evaluate(v, f); c.ret(); c.out("c", v); c.end(); } }
      else if (o.kind == 1 && c.r.one(3)) {   // documented aliasing: values may share the storage of the polynomial
        zz_pX g = dirtyp(c);
        if (q == 3) { zz_pX f = lowpoly(); g = f; beg("mp.tint"); c.val("f", f); c.val("alias", true); c.call(); m.t_interpolate(g.rep, g); c.ret(); c.out("c", g.rep); c.end(); g.rep.SetLength(0); }
        else { Vec<zz_p> v = c.vec(n); g.rep = v; beg(q == 1 ? "mp.interp" : "mp.teval"); c.val("v", v); c.val("n", n); c.val("alias", true); c.call(); if (q == 1) m.interpolate(g, g.rep); else m.t_evaluate(g, g.rep); c.ret(); c.out("c", g); c.end(); }
      }
      else if (q == 1) { Vec<zz_p> v = c.vec(n); zz_pX f = dirtyp(c); beg("mp.interp"); c.in("v", v); c.call(); m.interpolate(f, v); c.ret(); c.out("c", f); c.end(); }
      else if (q == 2) { Vec<zz_p> v = c.vec(n); zz_pX f = dirtyp(c); long os = c.r.one(2) ? n : c.r.in(0, o.kind == 0 && c.r.one(2) ? 2 * n + 1 : n); bool dflt = os == n && c.r.one(2); beg("mp.teval"); c.in("v", v); c.val("n", os); c.call(); if (dflt) m.t_evaluate(f, v); else m.t_evaluate(f, v, os); c.ret(); c.out("c", f); c.end(); }
      else { zz_pX f = lowpoly(); Vec<zz_p> v = dirtyv(c); beg("mp.tint"); c.in("f", f); c.call(); m.t_interpolate(v, f); c.ret(); c.out("c", v); c.end(); }
    } else if (w <= 7) {
      int q = c.r.in(0, 3); long s = c.r.in(1, 4);
      Vec<Vec<zz_p>> v; Vec<zz_pX> f; if (c.r.one(2)) { f = c.pvec(c.r.in(0, 5), 20); v.SetLength(c.r.in(0, n + 3)); for (auto& x : v) x = c.vec(c.r.in(0, 6)); }
      if (q == 0) { f.SetLength(s); for (auto& x : f) x = lowpoly(); beg("mp.evalv"); c.in("f", f); c.call(); m.evaluate_vector(v, f); c.ret(); c.out("c", v); c.end(); }
      else if (q == 1) { v.SetLength(n); for (auto& x : v) x = c.vec(s); beg("mp.interpv"); c.in("v", v); c.call(); m.interpolate_vector(f, v); c.ret(); c.out("c", f); c.end(); }
      else if (q == 2) { v.SetLength(n); for (auto& x : v) x = c.vec(s); long os = c.r.one(2) ? n : c.r.in(0, o.kind == 0 && c.r.one(2) ? 2 * n + 1 : n); beg("mp.tevalv"); c.in("v", v); c.val("n", os); c.call(); m.t_evaluate_vector(f, v, os); c.ret(); c.out("c", f); c.end(); }
      else { f.SetLength(s); for (auto& x : f) x = lowpoly(); beg("mp.tintv"); c.in("f", f); c.call(); m.t_interpolate_vector(v, f); c.ret(); c.out("c", v); c.end(); }
    } else if (w <= 11) {
      int q = c.r.in(0, 3); long s = c.r.in(1, 3), t = c.r.in(1, 3);
      Vec<Mat<zz_p>> v; PM f; if (c.r.one(2)) { f = c.pmat(c.r.in(0, 4), c.r.in(0, 4), 20); v.SetLength(c.r.in(0, n + 3)); for (auto& x : v) x = c.mat(c.r.in(0, 4), c.r.in(0, 4)); }
      if (q == 0) { f.SetDims(s, t); for (long i = 0; i < s; i++) for (long j = 0; j < t; j++) f[i][j] = lowpoly(); beg("mp.evalm"); c.in("f", f); c.call(); m.evaluate_matrix(v, f); c.ret(); c.out("c", v); c.end(); }
      else if (q == 1) { v.SetLength(n); for (auto& x : v) x = c.mat(s, t); beg("mp.interpm"); c.in("v", v); c.call(); m.interpolate_matrix(f, v); c.ret(); c.out("c", f); c.end(); }
      else if (q == 2) { v.SetLength(n); for (auto& x : v) x = c.mat(s, t); long os = c.r.one(2) ? n : c.r.in(0, o.kind == 0 && c.r.one(2) ? 2 * n + 1 : n); beg("mp.tevalm"); c.in("v", v); c.val("n", os); c.call(); m.t_evaluate_matrix(f, v, os); c.ret(); c.out("c", f); c.end(); }
      else { f.SetDims(s, t); for (long i = 0; i < s; i++) for (long j = 0; j < t; j++) f[i][j] = lowpoly(); beg("mp.tintm"); c.in("f", f); c.call(); m.t_interpolate_matrix(v, f); c.ret(); c.out("c", v); c.end(); }
    } else if (w == 12) { if (n > 40) continue; Mat<zz_p> d; if (c.r.one(2)) d = c.mat(c.r.in(0, 4), c.r.in(0, 4)); beg("mp.dense"); c.call(); m.to_dense(d); c.ret(); c.out("c", d); c.end();
    } else if (w == 13) { zz_p x; long k = c.r.in(0, n - 1); beg("mp.pt"); c.val("k", k); c.call(); m.get_point(x, k); c.ret(); c.out("c", x); c.end();
    } else if (w == 14) { Vec<zz_p> v = dirtyv(c); beg("mp.pts"); c.call(); m.get_points(v); c.ret(); c.out("c", v); c.end();
    } else if (w <= 16) {
      if (objs.size() >= 4) continue;
      Obj x; x.id = nid++; x.kind = o.kind; beg("mp.copy"); c.val("new", x.id); c.call();
      if (o.kind == 0) x.m.reset(new MN((MN&)m)); else if (o.kind == 1) { if (c.r.one(2)) x.m.reset(new MG((MG&)m)); else { MG* y = new MG(); *y = (MG&)m; x.m.reset(y); } } else x.m.reset(new MF((MF&)m));
      long len = x.m->length(); c.ret(); c.out("len", len); c.end(); objs.push_back(x);
    } else if (w == 17) { continue;
    } else {
      MG& g = *o.g();
      if (w <= 19) { bool ev = c.r.one(2); long to = c.r.in(0, 1); beg("mp.set"); c.val("which", ev ? "evaluate" : "interpolate"); c.val("to", to); c.call();
        if (ev) { if (to) g.set_FFT_evaluate(); else g.unset_FFT_evaluate(); } else { if (to) g.set_FFT_interpolate(); else g.unset_FFT_interpolate(); } c.ret(); c.end();
        beg("mp.flags"); c.call(); c.ret(); c.out("fe", g.FFT_evaluate()); c.out("fi", g.FFT_interpolate()); c.end(); }
      else if (w <= 21) { long d = c.r.in(0, n - 1); beg("mp.prep"); c.val("d", d); c.call(); g.prepare_degree(d); c.ret(); c.end(); }
      else if (w == 22) { zz_pX f = lowpoly(); Vec<zz_p> v = dirtyv(c); long nb = c.r.one(6) ? 0 : c.r.in(1, 3 * n + 2); beg("mp.long"); c.in("f", f); c.val("n", nb); c.call(); g.evaluate(v, f, nb); c.ret(); c.out("c", v); c.end(); }
      else { int q = w - 23; Vec<zz_p> a = c.vec(n), b = dirtyv(c); const char* nm[] = {"mp.right", "mp.iright", "mp.left", "mp.ileft"}; bool al = c.r.one(3);
        beg(nm[q]); if (al) { b = a; c.val((q == 0 || q == 3) ? "f" : "v", a); } else c.in((q == 0 || q == 3) ? "f" : "v", a); c.val("alias", al); c.call(); const Vec<zz_p>& x = al ? b : a;
        if (q == 0) g.mul_right(b, x); else if (q == 1) g.inv_mul_right(b, x); else if (q == 2) g.mul_left(b, x); else g.inv_mul_left(b, x); c.ret(); c.out("c", b); c.end(); }
    }
  }
}
static long ncases(bool deep) { return deep ? 24000 : 2400; }
Suite THE_SUITE = {"C13", run, ncases};
