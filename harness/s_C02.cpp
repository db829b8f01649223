// C02: middle products.
#include "core.h"
#include "lzz_p_extra.h"
#include "lzz_pX_middle_product.h"
#include "mat_lzz_pX_extra.h"
#include "mat_lzz_pX_multiply.h"
#include "mat_lzz_pX_utils.h"

static long bnd(Ctx& c, long top) {
  switch (c.r.in(0, 4)) {
  case 0: return c.r.in(0, 5);
  case 1: return std::min(top, c.r.pick({15, 16, 30, 31, 32, 33, 62, 63, 64, 65, 95, 96, 127, 128}));
  default: return c.r.in(0, top);
  }
}
// univariate
static void uni(Ctx& c) {
  static const int cls[] = {P2, PTINY, PSMALL, P16, P24, P24, P30, P30, P45, P59, P60, PFFT, PUFFT};
  if (c.r.one(5)) { // around the limit of the delayed-reduction arithmetic
    long p = c.r.pick({189812507, 189812531, 134217757, 167772161, 189812533, 189812603, 189812519}); while (!ProbPrime(p)) p++; c.set_p(p);
  } else c.prime_cls(cls[c.r.in(0, 12)]);
  long dA, dB;
  switch (c.r.in(0, 6)) {
  case 0: dA = bnd(c, 40); dB = bnd(c, 40); break;
  case 1: dA = c.r.in(30, 130); dB = c.r.in(30, 130); break;
  case 2: dA = c.r.in(150, 400); dB = c.r.in(0, 31); break;
  case 3: dB = c.r.in(150, 400); dA = c.r.in(0, 31); break;
  case 4: dA = c.r.in(30, 70); dB = c.r.in(100, 300); if (c.r.one(2)) std::swap(dA, dB); break;
  case 5: dA = c.r.in(150, 260); dB = c.r.in(150, 260); break;
  default: dA = bnd(c, 200); dB = bnd(c, 200);
  }
  zz_pX a, d, b = c.poly(4);
  if (c.r.one(6)) { a = c.poly(dA); d = c.poly(dA + dB); }
  else if (c.r.one(3)) { zz_p m = to_zz_p(zz_p::modulus() - 1); for (long i = 0; i <= dA; i++) SetCoeff(a, i, m); for (long i = 0; i <= dA + dB; i++) SetCoeff(d, i, m); }
  else { a = c.dense(c.r.one(3) ? c.r.in(-1, dA) : dA); d = c.dense(c.r.one(3) ? c.r.in(-1, dA + dB) : dA + dB); }
  bool fft = c.r.one(4);
  int al = c.r.in(0, 5);
  c.op("pmp"); c.val("alg", fft ? "middle_FFT" : "middle_product"); c.val("al", al == 0 ? "a" : al == 1 ? "c" : "");
  if (al == 0) c.val("a", a); else c.in("a", a);
  if (al == 1) c.val("c", d); else c.in("c", d);
  c.val("da", dA); c.val("db", dB); c.call();
  zz_pX& x = al == 0 ? a : al == 1 ? d : b;
  if (fft) { if (dA == dB && c.r.one(2)) middle_FFT(x, a, d, dA + 1); else middle_FFT(x, a, d, dA, dB); }
  else if (dA == dB && c.r.one(2)) x = middle_product(a, d, dA + 1); else if (c.r.one(3)) x = middle_product(a, d, dA, dB); else middle_product(x, a, d, dA, dB);
  c.ret(); c.out("b", x); c.end();
}

typedef void (*mpfn)(Mat<zz_pX>&, const Mat<zz_pX>&, const Mat<zz_pX>&, long, long);
static void g1(Mat<zz_pX>& b, const Mat<zz_pX>& a, const Mat<zz_pX>& c, long x, long y) { middle_product(b, a, c, x, y); }
static void g2(Mat<zz_pX>& b, const Mat<zz_pX>& a, const Mat<zz_pX>& c, long x, long y) { b = middle_product(a, c, x, y); }
static void g0(Mat<zz_pX>& b, const Mat<zz_pX>& a, const Mat<zz_pX>& c, long x, long y) { middle_product(b, a, c, x, y, 0); }
struct Alg { const char* name; mpfn f; int kind; };
static const Alg ALGS[] = {
  {"general", g1, 0}, {"general", g1, 0}, {"general", g2, 0}, {"general_np", g0, 4}, {"naive", middle_product_naive, 0}, {"primes3", middle_product_3_primes, 0},
  {"fft", middle_product_evaluate_FFT, 1}, {"fft_new", middle_product_evaluate_FFT_new, 1}, {"fft_mm", middle_product_evaluate_FFT_matmul, 1}, {"fft_mm1", middle_product_evaluate_FFT_matmul1, 1}, {"fft_mm2", middle_product_evaluate_FFT_matmul2, 1},
  {"fft_mm3", middle_product_evaluate_FFT_matmul3, 1}, {"fft_ll", middle_product_evaluate_FFT_direct_ll_type, 1}, {"fft_direct", middle_product_evaluate_FFT_direct, 1},
  {"dense", middle_product_evaluate_dense, 2}, {"geom_t", t_multiply_evaluate_geometric, 3}};
static void mat(Ctx& c) {
  const Alg& A = ALGS[(c.idx / 3) % (sizeof(ALGS) / sizeof(Alg))];
  long m, n, k;
  if (c.r.one(10)) { m = c.r.in(1, 24); n = c.r.in(1, 24); k = c.r.in(1, 24); } else { m = c.r.in(1, 6); n = c.r.in(1, 6); k = c.r.in(1, 6); }
  if (c.r.one(30)) { m = c.r.in(1, 2); k = c.r.in(1, 2); n = c.r.pick({255, 256, 257, 300, 511}); }
  long dA = bnd(c, 60), dB = bnd(c, 60);
  if (c.r.one(6)) { dA = c.r.in(60, 200); dB = c.r.in(0, 20); if (c.r.one(2)) std::swap(dA, dB); }
  while ((m * n * (dA + 1) + n * k * (dA + dB + 1)) > 7000) { dA = dA * 2 / 3; dB = dB * 2 / 3; if (dA + dB < 6) { m = (m + 1) / 2; k = (k + 1) / 2; } }
  if (A.f == middle_product_evaluate_FFT_direct_ll_type && c.r.one(4)) { m = c.r.in(1, 2); k = c.r.in(1, 2); n = c.r.pick({254, 255, 256, 300, 509, 510, 511, 512, 600, 766}); dA = c.r.in(0, 3); dB = c.r.in(0, 3); }   // 1 to 4 accumulation slices
  bool full = false, fft = A.kind == 1;
  if (fft && A.f == middle_product_evaluate_FFT_new && c.r.one(4)) {      // the bands of the FFT dispatcher
    long d = c.r.pick({4, 20, 31, 32, 33, 50, 51, 80, 81, 100, 101}), cube = c.r.pick({500, 600, 4097, 4913, 8000, 8001, 15625, 17000});
    if (c.r.one(2)) { m = 1; while (m * m * m < cube) m++; n = k = m; } else { m = c.r.in(1, 3); n = c.r.in(8, 40); k = cube / (m * n) + 1; if (c.r.one(2)) std::swap(m, k); }
    while (m * n * k * d * d > 20000000 || (m * n + 2 * n * k + m * k) * d > 80000) d = d * 3 / 4;
    dA = d; dB = c.r.one(2) ? d : c.r.in(d / 2, d);
  }
  switch (A.kind) {
  case 0: if (A.f == middle_product_3_primes && c.r.one(4)) { c.set_p(1152921504606846883L); full = c.r.one(2); }      // larger than some of the auxiliary primes
    else if (A.f == middle_product_3_primes || c.r.one(6)) { // where the number of auxiliary primes changes
      if (c.r.one(2)) { dB = c.r.in(0, 6); dA = c.r.in(20, 90); while (m * n * dA > 2500) { m = (m + 1) / 2; k = (k + 1) / 2; n = (n + 1) / 2; } }
      c.prime_crt(n * c.r.pick({std::min(dA, dB) + 1, std::max(dA, dB) + 1, dA + 1, dA + 1})); full = c.r.one(2); }
    else c.prime(); break;
  case 1: c.prime_cls(c.r.one(3) ? PUFFT : PFFT); while (!is_FFT_ready(NextPowerOfTwo(dA + dB + 1))) { dA /= 2; dB /= 2; } break;
  case 2: c.prime_min(dA + dB + 3); break;
  case 3: c.prime_min(20 * (dA + dB + 2)); break;
  default: if (c.r.one(2)) c.set_p(c.r.pick({4, 6, 15, 91, 1000, 65535, 1048577, 16777215, 1073741823, 35184372088833L})); else c.prime();
  }
  Mat<zz_pX> a = c.pmat(m, n, c.r.one(3) ? c.r.in(0, dA) : dA), d = c.pmat(n, k, c.r.one(4) ? c.r.in(0, dA + dB) : dA + dB), b;
  if (full) { zz_p e = to_zz_p(zz_p::modulus() - 1); zz_pX f, g; for (long i = 0; i <= dA; i++) SetCoeff(f, i, e); for (long i = 0; i <= dA + dB; i++) SetCoeff(g, i, e);
    for (long i = 0; i < n; i++) { for (long j = 0; j < m; j++) a[j][i] = f; for (long j = 0; j < k; j++) d[i][j] = g; } }
  if (c.r.one(2)) b = c.pmat(c.r.in(0, 3), c.r.in(0, 3), 3);
  int al = c.r.in(0, 7);
  c.op(A.kind == 3 ? "tmul" : "mp"); c.val("alg", A.name); c.val("al", al == 0 ? "a" : al == 1 ? "c" : "");
  if (al == 0) c.val("a", a); else c.in("a", a);
  if (al == 1) c.val("c", d); else c.in("c", d);
  c.val("da", dA); c.val("db", dB); c.call();
  Mat<zz_pX>& x = al == 0 ? a : al == 1 ? d : b;
  A.f(x, a, d, dA, dB);
  c.ret(); c.out("b", x); c.end();
}
// exhaustive small scopes
static void small(Ctx& c) {
  Small S(c); long dA = S.len - 1, dB = S.k - 1; for (long i = 0; i < S.r2; i++) for (long j = 0; j < S.c2; j++) trunc(S.G[i][j], S.G[i][j], dA + dB + 1);
  for (int q : {0, 4, 5}) { const Alg& A = ALGS[q]; Mat<zz_pX> x; c.op("mp"); c.val("alg", A.name); c.val("al", ""); c.in("a", S.F); c.in("c", S.G); c.val("da", dA); c.val("db", dB); c.call(); A.f(x, S.F, S.G, dA, dB); c.ret(); c.out("b", x); c.end(); }
  if (S.m == 1 && S.n == 1 && S.c2 == 1) for (int f = 0; f < 2; f++) { zz_pX x, &a = S.F[0][0], &d = S.G[0][0]; c.op("pmp"); c.val("alg", f ? "middle_FFT" : "middle_product"); c.val("al", ""); c.in("a", a); c.in("c", d); c.val("da", dA); c.val("db", dB); c.call();
    if (f) middle_FFT(x, a, d, dA, dB); else middle_product(x, a, d, dA, dB); c.ret(); c.out("b", x); c.end(); }
}
static void run(Ctx& c) {
  if (!c.tok.empty()) { small(c); return; } if (c.idx % 3 == 0) uni(c); else mat(c); }
static long ncases(bool deep) { return deep ? 40000 : 5000; }
Suite THE_SUITE = {"C02", run, ncases};
