// C20: matrix sequences and matrix fraction reconstruction.
#include "core.h"
#include "lzz_p_extra.h"
#include "lzz_pX_CRT.h"
#include "mat_lzz_pX_extra.h"
#include "mat_lzz_pX_sequence.h"
#include <iostream>
#include <sstream>
typedef Mat<zz_pX> PM;
struct Quiet { std::streambuf* b; std::ostringstream o; Quiet() { b = std::cout.rdbuf(o.rdbuf()); } ~Quiet() { std::cout.rdbuf(b); } };
static PM dirty(Ctx& c) { return c.r.one(2) ? PM() : c.pmat_dense(c.r.in(0, 4), c.r.in(0, 4), c.r.in(0, 6)); }
static void pows(Ctx& c) {
  c.prime(); long n = c.r.one(3) ? c.r.in(80, c.deep ? 400 : 200) : c.r.in(2, 40);
  zz_pX g = c.poly_exact(n), a = c.r.one(3) ? c.poly(n - 1) : c.dense(n - 1), t = c.poly(n - 1), w;
  if (c.r.one(3)) { t = 1; }
  if (c.r.one(4)) { clear(t); SetCoeff(t, c.r.in(0, n - 1)); }
  if (c.r.one(2)) { MakeMonic(g); }
  if (c.r.one(8)) { g = 0; SetCoeff(g, n); a = c.poly(n - 2) << 1; } // nilpotent: powers vanish
  long s = c.r.in(0, c.r.one(3) ? 9 : 2), l = c.r.in(1, n > 60 ? 4 : 7); bool up = c.r.one(2);
  w = InvTrunc(reverse(g, n), n - 1);
  Vec<zz_pX> pw, upper; if (c.r.one(3)) { pw = c.pvec(c.r.in(0, 8), 5); upper = c.pvec(c.r.in(0, 8), n); }
  c.op("genpows"); c.val("alg", "gen_pows"); c.in("t", t); c.in("a", a); c.val("s", s); c.in("g", g); c.val("l", l); c.val("up", up); c.val("w", w); c.call();
  gen_pows(pw, upper, t, a, s, g, l, up);
  c.ret(); c.out("c", pw); if (up) c.out("d", upper); c.end();
}
static void sequence(Ctx& c) {
  c.prime_of({P24, P30, P45, P59, P60, PFFT}); long m = c.r.in(1, 4), n = 2 * m + 2 + c.r.in(0, c.r.one(4) ? 90 : 20);
  zz_pX g = c.r.one(2) ? c.poly_exact(n) : c.dense(n); SetCoeff(g, n, 1); SetCoeff(g, 0, c.nzelt());
  zz_pX a = c.r.one(4) ? c.poly(c.r.one(3) ? 0 : n - 1) : c.dense(n - 1); Vec<Mat<zz_p>> s; if (c.r.one(3)) { s.SetLength(c.r.in(0, 5)); for (auto& x : s) x = c.mat(m, m); }
  c.op("genseq"); c.val("alg", "gen_sequence"); c.in("a", a); c.in("g", g); c.val("m", m); c.call();
  { Quiet q; gen_sequence(s, a, g, m); }
  c.ret(); c.out("c", s); c.end();
}
static void recon(Ctx& c) {
  int k = c.r.in(0, 2); long m = c.r.in(1, 4), d = c.r.in(1, c.r.one(3) ? 12 : 5);
  if (k == 0) c.prime_of({P45, P59, P60, PFFT}); else if (k == 1) c.prime_min(2 * d + 2); else c.prime_min(40 * d + 50);
  PM d0 = c.pmat_dense(m, m, d - 1), n0 = c.pmat_dense(m, m, d - 1), b = dirty(c);
  for (long i = 0; i < m; i++) SetCoeff(d0[i][i], d, 1);
  if (k > 0 && zz_p::modulus() < (1L << 40)) { Mat<zz_p> u = c.inv_mat(m); conv(n0, u); }   // left coprime with D0 whatever D0 (generic otherwise)
  if (k == 0) {
    while (determinant(coeff(d0, 0)) == 0) { d0 = c.pmat_dense(m, m, d - 1); for (long i = 0; i < m; i++) SetCoeff(d0[i][i], d, 1); }
    long len = 2 * d; PM inv, ser; plain_inv_trunc(inv, d0, len); ser = naive_mul(inv, n0); for (long i = 0; i < m; i++) for (long j = 0; j < m; j++) trunc(ser[i][j], ser[i][j], len);
    Vec<Mat<zz_p>> seq; seq.SetLength(len); for (long i = 0; i < len; i++) seq[i] = coeff(ser, i);
    c.op("reconapp"); c.val("alg", "approximation"); c.val("d0", d0); c.val("n0", n0); c.val("ser", ser); c.val("n", len); c.in("seq", seq); c.call();
    matrix_recon_approximation(b, seq);
    c.ret(); c.out("c", b); c.end(); return;
  }
  long N = 2 * d + (c.r.one(2) ? 0 : c.r.in(0, 3)); Vec<zz_p> pts; zz_p r;
  if (k == 1) { while (zz_p::modulus() < N) N--; if (N < 2 * d) return; pts.SetLength(N); long p = zz_p::modulus(); long s0 = c.r.in(0, p - 1), st = c.r.in(1, p - 1); for (long i = 0; i < N; i++) pts[i] = to_zz_p(s0) + to_zz_p(i) * to_zz_p(st); }
  else { element_of_order(r, 2 * N); if (r == 0) return; pts.SetLength(N); zz_p q = r * r, x = to_zz_p(1); for (long i = 0; i < N; i++) { pts[i] = x; x *= q; } }
  Vec<Mat<zz_p>> ev; ev.SetLength(N);
  for (long i = 0; i < N; i++) { Mat<zz_p> D = eval(d0, pts[i]); if (determinant(D) == 0) return; ev[i] = inv(D) * eval(n0, pts[i]); }
  Vec<Mat<zz_p>> ev0(ev); zz_p x0; bool have = false; // base point for expanding the witness
  for (long i = 0; i < 100 && !have; i++) { x0 = to_zz_p(i % zz_p::modulus()); have = determinant(eval(d0, x0)) != 0; }
  c.op("reconint"); c.val("alg", k == 1 ? "interpolation" : "geometric"); c.in("pts", pts); c.val("ev", ev0); c.val("d0", d0); c.val("n0", n0); c.call();
  if (k == 1) matrix_recon_interpolation(b, pts, ev); else matrix_recon_interpolation_geometric(b, pts, r, ev);
  c.ret(); c.out("c", b);
  // the module of p with p*D0^-1*N0 regular at... D0 is left coprime with N0 only generically: the witness is b * D0^-1
  PM w(INIT_SIZE, m, m);
  if (have && b.NumRows() == m && b.NumCols() == m) {
    long L = std::max(0L, deg(b)) + 1; // w has degree <= deg(b) - d + (column reducedness) <= deg b; expand at x0 through a shift
    PM ds(INIT_SIZE, m, m), bs(INIT_SIZE, m, m); auto sh = [&](const zz_pX& f, zz_p a) { zz_pX o, xa; SetCoeff(xa, 1, 1); SetCoeff(xa, 0, a); for (long i = deg(f); i >= 0; i--) o = o * xa + coeff(f, i); return o; };
    for (long i = 0; i < m; i++) for (long j = 0; j < m; j++) { ds[i][j] = sh(d0[i][j], x0); bs[i][j] = sh(b[i][j], x0); }
    PM id; plain_inv_trunc(id, ds, L); w = naive_mul(bs, id);
    for (long i = 0; i < m; i++) for (long j = 0; j < m; j++) { trunc(w[i][j], w[i][j], L); w[i][j] = sh(w[i][j], -x0); }
  }
  c.val("w", w); c.end();
}
// exhaustive small scopes: all residue rings of small degree
static void small(Ctx& c) {
  Small S(c); zz_pX t = S.F[0][0], a = S.F[0][1], g = S.G[0][0]; long n = S.len2 - 1; if (deg(g) != n || n < 2) return; zz_pX w = InvTrunc(reverse(g, n), n - 1);
  for (long l = 1; l <= 4; l += 3) for (bool up : {false, true}) { Vec<zz_pX> pw, upper;
    c.op("genpows"); c.val("alg", "gen_pows"); c.in("t", t); c.in("a", a); c.val("s", S.k); c.in("g", g); c.val("l", l); c.val("up", up); c.val("w", w); c.call(); gen_pows(pw, upper, t, a, S.k, g, l, up); c.ret(); c.out("c", pw); if (up) c.out("d", upper); c.end(); }
}
static void run(Ctx& c) { if (!c.tok.empty()) { small(c); return; } switch (c.idx % 3) { case 0: pows(c); break; case 1: sequence(c); break; default: recon(c); } }
static long ncases(bool deep) { return deep ? 15000 : 2400; }
Suite THE_SUITE = {"C20", run, ncases};
