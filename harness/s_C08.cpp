// C08: truncated inverses, series solutions, univariate series division, high-order lifting.
#include "core.h"
#include "lzz_p_extra.h"
#include "lzz_pX_extra.h"
#include "mat_lzz_pX_extra.h"
#include "mat_lzz_pX_inverse.h"
#include "mat_lzz_pX_linsolve.h"
typedef Mat<zz_pX> PM;
static PM dirty(Ctx& c) { return c.r.one(2) ? PM() : c.pmat_dense(c.r.in(0, 4), c.r.in(0, 4), c.r.in(0, 12)); }
static void sizes(Ctx& c, long& n, long& d, long& m) {
  switch (c.r.in(0, 6)) {
  case 0: n = c.r.in(1, 5); d = c.r.in(0, 3); m = c.r.in(1, 8); break;
  case 1: n = c.r.in(1, 2); d = c.r.in(0, 80); m = c.r.in(1, c.deep ? 300 : 130); break;
  case 2: n = c.r.in(1, 3); d = c.r.in(0, 20); m = c.r.pick({1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65}); break;
  case 3: n = c.r.in(1, 4); d = c.r.in(1, 6); m = c.r.in(1, 40); break;
  case 4: n = c.r.in(5, 9); d = c.r.in(0, 4); m = c.r.in(1, 12); break;
  case 5: n = c.r.in(1, 3); m = c.r.in(1, 50); d = c.r.in(m, 2 * m); break;   // degree above the precision
  default: n = c.r.in(1, 4); d = c.r.in(0, 12); m = c.r.in(1, 50);
  }
}
static PM invct(Ctx& c, long n, long d) {
  PM a = c.pmat_invct(n, d);
  if (c.r.one(6)) { for (long i = 0; i < n; i++) for (long j = 0; j < n; j++) { zz_p t = ConstTerm(a[i][j]); long v = c.r.in(2, 9); a[i][j] = LeftShift(RightShift(a[i][j], 1), v); SetCoeff(a[i][j], 0, t); } } // lacunary
  return a;
}
static void inverse(Ctx& c) {
  int k = (c.idx / 3) % 5; long n, d, m; sizes(c, n, d, m);
  switch (k) {
  case 1: { c.prime_cls(c.r.one(3) ? PUFFT : PFFT); while (m > 1 && !is_FFT_ready(NextPowerOfTwo(4 * m + 70))) m /= 2; break; }
  case 3: c.prime_min(40 * m + 200); break;
  default: c.prime();
  }
  if (k == 1 && !is_FFT_ready(8)) k = 0;
  PM a = invct(c, n, d), x = dirty(c);
  long th = c.r.one(3) ? -1 : c.r.pick({1, 1, 2, 3, 4, 5, 7, 8, 16, 31});
  if (k == 4 && c.r.one(3)) x.kill();
  if (k == 3 && c.r.one(8)) x = a;             // equal contents, distinct objects
  bool al = c.r.one(4);
  c.op("invtrunc"); c.val("alg", std::vector<const char*>{"plain", "fft", "middle", "geometric", "auto"}[k]); c.val("th", th); c.val("al", al);
  if (al) c.val("a", a); else c.in("a", a);
  c.val("d", m); c.call();
  PM& o = al ? a : x;
  switch (k) {
  case 0: plain_inv_trunc(o, a, m); break;
  case 1: newton_inv_trunc_FFT(o, a, m, th); break;
  case 2: newton_inv_trunc_middle_product(o, a, m, th); break;
  case 3: newton_inv_trunc_geometric(o, a, m, th); break;
  default: if (c.r.one(2)) inv_trunc(o, a, m); else o = inv_trunc(a, m);
  }
  c.ret(); c.out("c", o); c.end();
}
static void solve(Ctx& c) {
  int k = (c.idx / 3) % 5; long n, d, m; sizes(c, n, d, m);
  if (k == 3) { d = std::max(1L, std::min(d, 10L)); m = c.r.in(1, 70); }
  c.prime();
  long nc = c.r.in(1, 4), db = c.r.in(0, c.r.one(3) ? 2 * m + 2 : std::max(0L, m - 1));
  PM a = invct(c, n, d), x = dirty(c);
  d = deg(a); if (k == 3) { db = d - 1; }
  PM b = db < 0 ? PM() : (c.r.one(3) ? c.pmat_dense(n, nc, db) : c.pmat(n, nc, db)); if (db < 0) b.SetDims(n, nc);
  long th = c.r.one(3) ? -1 : c.r.pick({1, 1, 2, 3, 4, 5, 7, 8, 16, 31});
  if (k == 4) {
    Vec<zz_pX> bv = c.pvec(n, db < 0 ? 0 : db), u; if (c.r.one(3)) u = c.pvec(c.r.in(0, 5), 6); bool al = c.r.one(4);
    c.op("solserv"); c.val("alg", "auto_vec"); c.in("a", a); if (al) c.val("b", bv); else c.in("b", bv); c.val("n", m); c.val("al", al); c.call();
    Vec<zz_pX>& o = al ? bv : u; if (c.r.one(3)) o = solve_series(a, bv, m); else solve_series(o, a, bv, m);
    c.ret(); c.out("c", o); c.end(); return;
  }
  int al = c.r.in(0, 5); if (al == 0 && nc != n) al = 5;
  c.op("solser"); c.val("alg", std::vector<const char*>{"low", "high", "auto", "hol"}[k]); c.val("th", th); c.val("al", al);
  if (al == 0) c.val("a", a); else c.in("a", a);
  if (al == 1) c.val("b", b); else c.in("b", b);
  c.val("n", m); c.call();
  PM& o = al == 0 ? a : al == 1 ? b : x; bool rv = c.r.one(4);
  switch (k) {
  case 0: if (rv) o = solve_series_low_precision(a, b, m, th); else solve_series_low_precision(o, a, b, m, th); break;
  case 1: if (rv) o = solve_series_high_precision(a, b, m); else solve_series_high_precision(o, a, b, m); break;
  case 2: if (rv) o = solve_series(a, b, m); else solve_series(o, a, b, m); break;
  case 3: if (rv) o = solve_series_high_order_lifting(a, b, m); else solve_series_high_order_lifting(o, a, b, m); break;
  }
  c.ret(); c.out("c", o); c.end();
}
static void lift(Ctx& c) {
  c.prime(); long n = c.r.in(1, 4), d = c.r.in(1, 9);
  PM a = invct(c, n, d); d = deg(a); if (d < 1) { SetCoeff(a[0][0], 1, 1); d = 1; }
  long i = 2 * d + (c.r.one(2) ? 0 : c.r.in(0, 20));
  PM w; plain_inv_trunc(w, a, 2 * i - d);
  PM s(INIT_SIZE, n, n), inv(INIT_SIZE, n, n), nx = dirty(c);
  for (long u = 0; u < n; u++) for (long v = 0; v < n; v++) { inv[u][v] = trunc(w[u][v], d); s[u][v] = trunc(RightShift(w[u][v], i - (2 * d - 1)), 2 * d - 1); }
  std::unique_ptr<mat_lzz_pX_lmultiplier> ma = get_lmultiplier(a, d - 1), mi = get_lmultiplier(inv, d - 1);
  bool al = c.r.one(2);
  c.op("hol"); c.val("alg", "odd"); c.val("al", al); c.in("a", a); c.val("d", d); c.val("i2", i); c.val("w", w);
  if (al) c.val("s", s); else c.in("s", s);
  c.call();
  PM& o = al ? s : nx; high_order_lift_inverse_odd(o, s, ma, mi, d);
  c.ret(); c.out("c", o); c.end();
}
static void uni(Ctx& c) {
  c.prime(); long X = NTL_zz_pX_NEWTON_CROSSOVER, m;
  switch (c.r.in(0, 4)) {
  case 0: m = c.r.in(0, 6); break;
  case 1: m = c.r.in(0, 40); break;
  case 2: m = c.r.pick({X - 1, X, X + 1, X + 2}); break;
  case 3: m = c.r.pick({63, 64, 65, 127, 128, 129, 192, 255, 256, 257, 320, 383, 384, 385}); break;
  default: m = c.r.in(X, c.deep ? 900 : 420);
  }
  long da, db;
  auto step = [&]() { long t = m; if (c.r.one(2)) for (long i = c.r.in(0, 3); i > 0; i--) t = (t + 1) / 2; else for (t = 1; 2 * t < m; t *= 2); return std::max(0L, t + (c.r.one(2) ? 0 : c.r.in(-1, 1))); };
  switch (c.r.in(0, 7)) {
  case 0: da = c.r.in(0, 3); db = c.r.in(0, 3); break;
  case 6: da = c.r.in(0, m); db = step(); break;          // degrees at the precisions of the Newton steps
  case 7: da = step(); db = step(); break;
  case 1: da = m; db = m; break;
  case 2: da = m / 2; db = m / 2; break;
  case 3: da = c.r.in(0, m); db = c.r.in(0, m); break;
  case 4: da = c.r.in(m, 2 * m); db = c.r.in(m, 2 * m); break;
  default: da = c.r.in(0, 2 * m); db = c.r.in(0, 2 * m);
  }
  zz_pX a = c.r.one(2) ? c.dense(da) : c.poly(da), b = c.r.one(2) ? c.dense(db) : c.poly(db), x = c.poly(10);
  SetCoeff(a, 0, c.r.one(3) ? to_zz_p(1) : c.nzelt());
  if (c.r.one(6)) { b = MulTrunc(a, c.poly(m), m + 3); }     // small exact quotients
  if (c.r.one(10)) clear(b);
  int al = c.r.in(0, 5);
  c.op("invmul"); c.val("alg", "InvTruncMul"); c.val("al", al);
  if (al == 0) c.val("a", a); else c.in("a", a);
  if (al == 1) c.val("b", b); else c.in("b", b);
  c.val("d", m); c.call();
  zz_pX& o = al == 0 ? a : al == 1 ? b : x; if (c.r.one(4)) o = InvTruncMul(b, a, m); else InvTruncMul(o, b, a, m);
  c.ret(); c.out("c", o); c.end();
}
// exhaustive small scopes
static void small(Ctx& c) {
  Small S(c); const PM& a = S.F; PM x, y, b; Mat<zz_p> a0 = coeff(a, 0); if (IsZero(determinant(a0))) return;
  b.SetDims(S.m, 1); for (long i = 0; i < S.m; i++) { b[i][0] = RightShift(a[i][0], 1); SetCoeff(b[i][0], 0, coeff(b[i][0], 0) + 1); }
  const char* nm[] = {"plain", "middle", "auto"};
  for (int k = 0; k < 3; k++) { c.op("invtrunc"); c.val("alg", nm[k]); c.val("th", 1); c.val("al", false); c.in("a", a); c.val("d", S.k); c.call();
    if (k == 0) plain_inv_trunc(x, a, S.k); else if (k == 1) newton_inv_trunc_middle_product(x, a, S.k, 1); else inv_trunc(x, a, S.k); c.ret(); c.out("c", x); c.end(); }
  const char* ns[] = {"low", "high", "auto"};
  for (int k = 0; k < 3; k++) { c.op("solser"); c.val("alg", ns[k]); c.val("th", 1); c.val("al", 5); c.in("a", a); c.in("b", b); c.val("n", S.k); c.call();
    if (k == 0) solve_series_low_precision(y, a, b, S.k, 1); else if (k == 1) solve_series_high_precision(y, a, b, S.k); else solve_series(y, a, b, S.k); c.ret(); c.out("c", y); c.end(); }
  if (S.m == 1) { zz_pX o; c.op("invmul"); c.val("alg", "InvTruncMul"); c.val("al", 5); c.in("a", a[0][0]); c.in("b", b[0][0]); c.val("d", S.k); c.call(); InvTruncMul(o, b[0][0], a[0][0], S.k); c.ret(); c.out("c", o); c.end(); }
}
static void run(Ctx& c) {
  if (!c.tok.empty()) { small(c); return; }
  switch (c.idx % 3) { case 0: inverse(c); break; case 1: solve(c); break;
  default: if ((c.idx / 3) % 2) uni(c); else lift(c); }
}
static long ncases(bool deep) { return deep ? 40000 : 4500; }
Suite THE_SUITE = {"C08", run, ncases};
