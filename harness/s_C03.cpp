// C03: elementary operations.
#include "core.h"
#include "lzz_pX_extra.h"
#include "mat_lzz_pX_extra.h"
#include "mat_lzz_pX_arith.h"
#include "mat_lzz_pX_utils.h"
#include "mat_lzz_pX_linearization.h"

typedef Mat<zz_pX> PM; typedef Vec<zz_pX> PV; typedef Mat<zz_p> CM; typedef Vec<zz_p> CV; typedef Vec<Mat<zz_p>> MP;
static PM dirty(Ctx& c, long m, long n) {
  switch (c.r.in(0, 3)) { case 0: return PM(); case 1: return c.pmat_dense(c.r.in(0, 4), c.r.in(0, 4), 5); default: return c.pmat_dense(m, n, 12); }
}
static PV vdirty(Ctx& c, long n) { switch (c.r.in(0, 2)) { case 0: return PV(); case 1: return c.pvec(c.r.in(0, 4), 5); default: return c.pvec(n, 12); } }
static CM cdirty(Ctx& c, long m, long n) { switch (c.r.in(0, 2)) { case 0: return CM(); case 1: return c.mat(c.r.in(0, 4), c.r.in(0, 4)); default: return c.mat(m, n); } }
static MP coeffs(Ctx& c, long len, long m, long n) { MP v; v.SetLength(len); for (long i = 0; i < len; i++) v[i] = c.mat(m, n); if (len > 1 && c.r.one(3)) clear(v[len - 1]); return v; }

// unary operation in the forms f(x,a), x = f(a), in place
template <class X, class A, class F, class G> static void un(Ctx& c, A& a, X x, F f, G g) {
  int w = c.r.in(0, 1);
  c.in("a", a); c.call();
  if (w) f(x, a); else x = g(a);
  c.ret(); c.out("c", x); c.end();
}
template <class A, class F, class G> static void una(Ctx& c, A& a, A x, F f, G g) {
  int w = c.r.in(0, 2);
  if (w == 2) { c.val("a", a); c.call(); f(a, a); c.ret(); c.out("c", a); c.end(); return; }
  un(c, a, x, f, g);
}
// binary, which = 1: output may be a, 2: may be b, 3: both
template <class A, class X, class F> static void bin3(Ctx& c, A& a, A& b, X x, F f) {
  int w = c.r.in(0, 3);
  if (w == 0) { c.val("a", a); c.in("b", b); c.call(); f(a, a, b); c.ret(); c.out("c", a); }
  else if (w == 1) { c.in("a", a); c.val("b", b); c.call(); f(b, a, b); c.ret(); c.out("c", b); }
  else { c.in("a", a); c.in("b", b); c.call(); f(x, a, b); c.ret(); c.out("c", x); }
  c.end();
}
template <class A, class B, class X, class F> static void bin1(Ctx& c, A& a, B& b, X x, F f) {   // output may be a
  if (c.r.one(3)) { c.val("a", a); c.in("b", b); c.call(); f(a, a, b); c.ret(); c.out("c", a); }
  else { c.in("a", a); c.in("b", b); c.call(); f(x, a, b); c.ret(); c.out("c", x); }
  c.end();
}
template <class A, class B, class X, class F> static void bin2(Ctx& c, A& a, B& b, X x, F f) {   // output may be b
  if (c.r.one(3)) { c.in("a", a); c.val("b", b); c.call(); f(b, a, b); c.ret(); c.out("c", b); }
  else { c.in("a", a); c.in("b", b); c.call(); f(x, a, b); c.ret(); c.out("c", x); }
  c.end();
}
#define L1(e) [&](PM& x, const PM& y) { e; }
#define R1(e) [&](const PM& y) { return e; }
#define LV(e) [&](PV& x, const PV& y) { e; }
#define RV(e) [&](const PV& y) { return e; }

static void run(Ctx& c) {
  c.prime();
  long m = c.r.in(1, 5), n = c.r.in(1, 5), d = c.r.in(0, 9);
  if (c.r.one(15)) m = 0; if (c.r.one(15)) n = 0;
  if (c.r.one(25)) { m = c.r.in(1, 2); n = c.r.in(31, 70); d = c.r.in(0, 2); }
  if (c.r.one(25)) { m = n = c.r.in(1, 2); d = c.r.in(28, 70); }
  PM a = c.pmat(m, n, d), b = c.pmat(m, n, c.r.one(2) ? d : c.r.in(0, 9)), x = dirty(c, m, n);
  PV v = c.pvec(n, d), w = c.pvec(n, c.r.one(2) ? d : c.r.in(0, 9)), y = vdirty(c, n);
  if (c.r.one(4)) { b = a; for (long i = 0; i < m; i++) for (long j = 0; j < n; j++) if (c.r.one(3)) b[i][j] += c.poly(2); if (c.r.one(2)) { for (long i = 0; i < m; i++) for (long j = 0; j < n; j++) NTL::negate(b[i][j], b[i][j]); } w = v; }
  CM e = c.mat(m, n); CV g = c.vec(n);
  long k = c.r.in(-d - 2, d + 3), kn = c.r.in(0, d + 3), i0 = m ? c.r.in(0, m - 1) : 0, j0 = n ? c.r.in(0, n - 1) : 0;
  switch (c.idx % 60) {
  case 0: c.op("clear"); c.val("a", a); c.call(); clear(a); c.ret(); c.out("c", a); c.end(); break;
  case 1: { long r0 = c.r.in(0, m + 1), c0 = c.r.in(0, n + 1), nr = c.r.in(0, m + 2), nc = c.r.in(0, n + 2);
    c.op("clearw"); c.val("a", a); c.val("r0", r0); c.val("c0", c0); c.val("nr", nr); c.val("nc", nc); c.call(); clear(a, r0, c0, nr, nc); c.ret(); c.out("c", a); c.end(); break; }
  case 2: c.op("ident"); c.val("n", n); c.call(); if (c.r.one(2)) ident(x, n); else x = ident_mat_zz_pX(n); c.ret(); c.out("c", x); c.end(); break;
  case 3: if (c.r.one(3)) clear(a); if (c.r.one(4) && m && n) SetCoeff(a[m - 1][n - 1], 1, 1); c.op("iszero"); c.in("a", a); c.call(); { bool z = IsZero(a); c.ret(); c.out("c", z); } c.end(); break;
  case 4: if (c.r.one(3)) for (long i = 0; i < n; i++) clear(v[i]); if (c.r.one(4) && n) SetCoeff(v[n - 1], 0, 1); c.op("viszero"); c.in("a", v); c.call(); { bool z = IsZero(v); c.ret(); c.out("c", z); } c.end(); break;
  case 5: case 6: { ident(a, n); if (c.r.one(3)) a = c.pmat(m, n, d); else if (c.r.one(2) && n) a[c.r.in(0, n - 1)][c.r.in(0, n - 1)] = c.poly(1); else if (c.r.one(4) && n) { a.SetDims(n + 1, n); } else if (c.r.one(4)) { PM t; t.SetDims(n, n + 1); for (long i = 0; i < n; i++) set(t[i][i]); a = t; }
    if (c.idx % 60 == 5) { c.op("isident"); c.in("a", a); c.call(); bool z = IsIdent(a); c.ret(); c.out("c", z); c.end(); }
    else { long q = c.r.one(3) ? n + c.r.in(-1, 1) : n; if (q < 0) q = 0; c.op("isidentn"); c.in("a", a); c.val("n", q); c.call(); bool z = IsIdent(a, q); c.ret(); c.out("c", z); c.end(); } break; }
  case 7: { if (c.r.one(2)) { a = c.pmat(m, n, 0); if (m && n && c.r.one(2)) SetCoeff(a[c.r.in(0, m - 1)][c.r.in(0, n - 1)], 1, 1); } c.op("isconst"); c.in("a", a); c.call(); bool z = IsConstant(a); c.ret(); c.out("c", z); c.end(); break; }
  case 8: { c.op("deg"); c.in("a", a); c.call(); long z = deg(a); c.ret(); c.out("c", z); c.end(); break; }
  case 9: { c.op("vdeg"); c.in("a", v); c.call(); long z = deg(v); c.ret(); c.out("c", z); c.end(); break; }
  case 10: { CM z = cdirty(c, m, n); c.op("getcoeff"); c.in("a", a); c.val("k", kn); c.call(); if (c.r.one(2)) GetCoeff(z, a, kn); else z = coeff(a, kn); c.ret(); c.out("c", z); c.end(); break; }
  case 11: if (c.r.one(3)) clear(e); c.op("setcoeff"); c.val("a", a); c.in("b", e); c.val("k", kn); c.call(); SetCoeff(a, kn, e); c.ret(); c.out("c", a); c.end(); break;
  case 12: case 13: c.op("transp"); una(c, a, x, L1(transpose(x, y)), R1(transpose(y))); break;
  case 14: c.op("mirror"); una(c, v, y, LV(mirror(x, y)), RV(mirror(y))); break;
  case 15: c.op("trunc"); c.val("k", kn); una(c, a, x, L1(trunc(x, y, kn)), R1(trunc(y, kn))); break;
  case 16: c.op("vtrunc"); c.val("k", kn); una(c, v, y, LV(trunc(x, y, kn)), RV(trunc(y, kn))); break;
  case 17: if (!m) break; c.op("truncrow"); c.val("k", kn); c.val("i0", i0); una(c, a, x, L1(truncRow(x, y, i0, kn)), R1(truncRow(y, i0, kn))); break;
  case 18: if (!n) break; c.op("trunccol"); c.val("k", kn); c.val("i0", j0); una(c, a, x, L1(truncCol(x, y, j0, kn)), R1(truncCol(y, j0, kn))); break;
  case 19: c.op("shl"); c.val("k", k); una(c, a, x, L1(LeftShift(x, y, k)), R1(LeftShift(y, k))); break;
  case 20: c.op("shl"); c.val("k", -k); una(c, a, x, L1(RightShift(x, y, k)), R1(RightShift(y, k))); break;
  case 21: c.op("shl"); c.val("k", k); if (c.r.one(2)) { c.val("a", a); c.call(); a <<= k; c.ret(); c.out("c", a); } else { c.in("a", a); c.call(); x = a << k; c.ret(); c.out("c", x); } c.end(); break;
  case 22: c.op("shl"); c.val("k", -k); if (c.r.one(2)) { c.val("a", a); c.call(); a >>= k; c.ret(); c.out("c", a); } else { c.in("a", a); c.call(); x = a >> k; c.ret(); c.out("c", x); } c.end(); break;
  case 23: c.op("vshl"); c.val("k", k); una(c, v, y, LV(LeftShift(x, y, k)), RV(LeftShift(y, k))); break;
  case 24: c.op("vshl"); c.val("k", -k); una(c, v, y, LV(RightShift(x, y, k)), RV(RightShift(y, k))); break;
  case 25: c.op("vshl"); if (c.r.one(2)) { c.val("k", k); c.val("a", v); c.call(); v <<= k; c.ret(); c.out("c", v); } else { c.val("k", -k); c.in("a", v); c.call(); y = v >> k; c.ret(); c.out("c", y); } c.end(); break;
  case 26: if (!m) break; c.op("shlrow"); c.val("k", k); c.val("i0", i0); una(c, a, x, L1(LeftShiftRow(x, y, i0, k)), R1(LeftShiftRow(y, i0, k))); break;
  case 27: if (!m) break; c.op("shlrow"); c.val("k", -k); c.val("i0", i0); una(c, a, x, L1(RightShiftRow(x, y, i0, k)), R1(RightShiftRow(y, i0, k))); break;
  case 28: if (!n) break; c.op("shlcol"); c.val("k", k); c.val("i0", j0); una(c, a, x, L1(LeftShiftCol(x, y, j0, k)), R1(LeftShiftCol(y, j0, k))); break;
  case 29: if (!n) break; c.op("shlcol"); c.val("k", -k); c.val("i0", j0); una(c, a, x, L1(RightShiftCol(x, y, j0, k)), R1(RightShiftCol(y, j0, k))); break;
  case 30: { long hi = c.r.in(-1, d + 3); c.op("rev"); c.val("k", hi); una(c, a, x, L1(reverse(x, y, hi)), R1(reverse(y, hi))); break; }
  case 31: { long hi = deg(a); c.op("rev"); c.val("k", hi); una(c, a, x, L1(reverse(x, y)), R1(reverse(y))); break; }
  case 32: { std::vector<long> hi(m); for (auto& h : hi) h = c.r.in(-1, d + 3); c.op("rowrev"); c.in("hi", hi); una(c, a, x, L1(row_reverse(x, y, hi)), R1(row_reverse(y, hi))); break; }
  case 33: { std::vector<long> hi(n); for (auto& h : hi) h = c.r.in(-1, d + 3); c.op("colrev"); c.in("hi", hi); una(c, a, x, L1(col_reverse(x, y, hi)), R1(col_reverse(y, hi))); break; }
  case 34: { zz_p t = c.elt(); CM z = cdirty(c, m, n); c.op("eval"); c.in("a", a); c.in("x", t); c.call(); if (c.r.one(2)) eval(z, a, t); else z = eval(a, t); c.ret(); c.out("c", z); c.end(); break; }
  case 35: { zz_p t = c.elt(); MP q = coeffs(c, c.r.in(0, 5), m, n); CM z = cdirty(c, m, n); c.op("evalm"); c.in("a", q); c.in("x", t); c.call(); if (c.r.one(2)) eval(z, q, t); else z = eval(q, t); c.ret(); c.out("c", z); c.end(); break; }
  case 36: { std::vector<std::vector<long>> dd(m, std::vector<long>(n)); int q = c.r.in(0, 3);
    std::vector<long> rd(m), cd(n); for (auto& h : rd) h = c.r.in(0, d + 1); for (auto& h : cd) h = c.r.in(0, d + 1); Mat<long> dm; dm.SetDims(m, n); for (long i = 0; i < m; i++) for (long j = 0; j < n; j++) dm[i][j] = c.r.in(0, d + 1);
    for (long i = 0; i < m; i++) for (long j = 0; j < n; j++) dd[i][j] = q == 0 ? d : q == 1 ? rd[i] : q == 2 ? cd[j] : dm[i][j];
    c.op("random"); c.val("r", m); c.val("n", n); c.in("d", dd); c.call();
    if (q == 0) { if (c.r.one(2)) random(x, m, n, d); else x = random_mat_zz_pX(m, n, d); } else if (q == 1) random_mat_zz_pX_rdeg(x, m, n, rd); else if (q == 2) random_mat_zz_pX_cdeg(x, m, n, cd); else random(x, dm);
    c.ret(); c.out("c", x); c.end(); break; }
  case 37: if (c.r.one(2)) { c.op("vrandom"); c.val("n", n); c.val("d", d); c.call(); random(y, n, d); c.ret(); c.out("c", y); c.end(); }
    else { MP q = coeffs(c, 2, 2, 2); c.op("mrandom"); c.val("r", m); c.val("n", n); c.val("d", d); c.call(); random(q, m, n, d); c.ret(); c.out("c", q); c.end(); } break;
  case 38: c.op("convc"); un(c, e, x, [&](PM& x, const CM& y) { conv(x, y); }, [&](const CM& y) { return conv(y); }); break;
  case 39: case 40: { MP q = coeffs(c, c.r.in(0, 3), 2, 2); c.op("pm2mp"); un(c, a, q, [&](MP& x, const PM& y) { conv(x, y); }, [&](const PM& y) { return conv(y); }); break; }
  case 41: { MP q = coeffs(c, c.r.in(0, 3), 2, 2); c.op("pm2mpo"); c.val("k", kn); un(c, a, q, [&](MP& x, const PM& y) { conv(x, y, kn); }, [&](const PM& y) { return conv(y, kn); }); break; }
  case 42: case 43: { MP q = coeffs(c, c.r.one(3) ? c.r.in(0, 1) : c.r.in(0, d + 2), m, n); bool f = c.r.one(2); PM z0; c.op("mp2pm"); c.val("d", f ? x : z0); c.in("a", q); c.call(); if (f) conv(x, q); else x = conv(q); c.ret(); c.out("c", x); c.end(); break; }
  case 44: { MP q = coeffs(c, c.r.in(0, d + 2), m, n); c.op("mp2pmo"); c.val("k", kn); un(c, q, x, [&](PM& x, const MP& y) { conv(x, y, kn); }, [&](const MP& y) { return conv(y, kn); }); break; }
  case 45: c.op("add"); bin3(c, a, b, x, [&](PM& x, const PM& a, const PM& b) { int t = c.r.in(0, 1); if (t) add(x, a, b); else if (&x == &a) x += b; else x = a + b; }); break;
  case 46: c.op("sub"); bin3(c, a, b, x, [&](PM& x, const PM& a, const PM& b) { int t = c.r.in(0, 1); if (t) sub(x, a, b); else if (&x == &a) x -= b; else x = a - b; }); break;
  case 47: c.op("addc"); bin1(c, a, e, x, [&](PM& x, const PM& a, const CM& b) { int t = c.r.in(0, 2); if (t == 0) add(x, a, b); else if (&x == &a) x += b; else if (t == 1) x = a + b; else if (c.r.one(2)) x = b + a; else add(x, b, a); }); break;
  case 48: c.op("subcr"); bin1(c, a, e, x, [&](PM& x, const PM& a, const CM& b) { int t = c.r.in(0, 1); if (t) sub(x, a, b); else if (&x == &a) x -= b; else x = a - b; }); break;
  case 49: c.op("subcl"); bin2(c, e, b, x, [&](PM& x, const CM& a, const PM& b) { int t = c.r.in(0, 1); if (t) sub(x, a, b); else x = a - b; }); break;
  case 50: c.op("vadd"); bin3(c, v, w, y, [&](PV& x, const PV& a, const PV& b) { int t = c.r.in(0, 1); if (t) add(x, a, b); else if (&x == &a) x += b; else x = a + b; }); break;
  case 51: c.op("vsub"); bin3(c, v, w, y, [&](PV& x, const PV& a, const PV& b) { int t = c.r.in(0, 1); if (t) sub(x, a, b); else if (&x == &a) x -= b; else x = a - b; }); break;
  case 52: c.op("vaddc"); bin1(c, v, g, y, [&](PV& x, const PV& a, const CV& b) { int t = c.r.in(0, 2); if (t == 0) add(x, a, b); else if (&x == &a) x += b; else if (t == 1) x = a + b; else if (c.r.one(2)) x = b + a; else add(x, b, a); }); break;
  case 53: if (c.r.one(2)) { c.op("vsubcr"); bin1(c, v, g, y, [&](PV& x, const PV& a, const CV& b) { int t = c.r.in(0, 1); if (t) sub(x, a, b); else if (&x == &a) x -= b; else x = a - b; }); }
    else { c.op("vsubcl"); bin2(c, g, w, y, [&](PV& x, const CV& a, const PV& b) { if (c.r.one(2)) sub(x, a, b); else x = a - b; }); } break;
  case 54: c.op("neg"); una(c, a, x, L1(PML::negate(x, y)), R1(-y)); break;
  case 55: c.op("vneg"); una(c, v, y, LV(PML::negate(x, y)), RV(-y)); break;
  case 56: { zz_pX f = c.poly(d), h = c.poly(c.r.in(0, 6)), z = c.poly(14); if (c.r.one(4)) { f = c.poly_exact(d); if (d >= kn) { h = c.poly_exact(d - kn); SetCoeff(h, d - kn, -coeff(f, d)); } }
    c.op("paddls"); c.val("k", kn); bin3(c, f, h, z, [&](zz_pX& x, const zz_pX& a, const zz_pX& b) { add_LeftShift(x, a, b, kn); }); break; }
  case 57: { long kp = std::max(1L, kn); c.op("vaddls"); c.val("k", kp); bin1(c, v, w, y, [&](PV& x, const PV& a, const PV& b) { add_LeftShift(x, a, b, kp); }); break; }
  case 58: { long kp = std::max(1L, kn); c.op("addls"); c.val("k", kp); bin1(c, a, b, x, [&](PM& x, const PM& a, const PM& b) { add_LeftShift(x, a, b, kp); }); break; }
  default: { PM b2 = c.pmat(m, c.r.in(0, 4), 3); c.op("hjoin"); bin3(c, a, b2, x, [&](PM& x, const PM& a, const PM& b) { if (c.r.one(2)) horizontal_join(x, a, b); else x = horizontal_join(a, b); }); break; }
  }
}
static long ncases(bool deep) { return deep ? 120000 : 12000; }
Suite THE_SUITE = {"C03", run, ncases};
