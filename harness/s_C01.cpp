// C01: products of polynomial matrices.
#include "core.h"
#include "lzz_p_extra.h"
#include "mat_lzz_pX_extra.h"
#include "mat_lzz_pX_multiply.h"
#include "mat_lzz_pX_arith.h"
#include "mat_lzz_pX_utils.h"

static long dim(Ctx& c) { return c.r.one(12) ? c.r.in(10, 24) : c.r.in(1, 7); }
static Mat<zz_pX> dirty(Ctx& c) {           // an output argument with previous contents
  if (c.r.one(2)) return Mat<zz_pX>();
  return c.pmat(c.r.in(0, 4), c.r.in(0, 4), c.r.in(0, 6));
}

typedef void (*mulfn)(Mat<zz_pX>&, const Mat<zz_pX>&, const Mat<zz_pX>&);
static void event3(Ctx& c, const char* alg, mulfn f, Mat<zz_pX> a, Mat<zz_pX> b) {
  c.op("mul"); c.val("alg", alg);
  int al = c.r.in(0, 5);
  if (al == 0) { c.val("al", "a"); c.val("a", a); c.in("b", b); c.call(); f(a, a, b); c.ret(); c.out("c", a); c.end(); }
  else if (al == 1) { c.val("al", "b"); c.in("a", a); c.val("b", b); c.call(); f(b, a, b); c.ret(); c.out("c", b); c.end(); }
  else { Mat<zz_pX> x = dirty(c); c.val("al", ""); c.in("a", a); c.in("b", b); c.call(); f(x, a, b); c.ret(); c.out("c", x); c.end(); }
}
static void gen1(Mat<zz_pX>& c, const Mat<zz_pX>& a, const Mat<zz_pX>& b) { multiply(c, a, b); }
static void gen0(Mat<zz_pX>& c, const Mat<zz_pX>& a, const Mat<zz_pX>& b) { multiply(c, a, b, 0); }
static void opstar(Mat<zz_pX>& c, const Mat<zz_pX>& a, const Mat<zz_pX>& b) { c = a * b; }
static void trs_len(Mat<zz_pX>& c, const Mat<zz_pX>& a, const Mat<zz_pX>& b) { multiply_transform(c, a, b); }

// degree profile around the dispatch thresholds
static long degp(Ctx& c) {
  switch (c.r.in(0, 5)) {
  case 0: return c.r.in(0, 6);
  case 1: return c.r.in(0, 6);
  case 2: return c.r.in(1, 20);
  case 3: return c.r.in(5, 40);
  case 4: return c.r.pick({7, 8, 15, 16, 31, 32, 33, 63, 64});
  default: return c.r.in(0, 80);
  }
}
// keeps m*n*k*dA*dB within a budget
static void shape(Ctx& c, long& m, long& n, long& k, long& da, long& db) {
  m = dim(c); n = dim(c); k = dim(c); da = degp(c); db = c.r.one(2) ? da : degp(c);
  while ((m * n + n * k) * (da + db + 1) > 9000) { da = da * 2 / 3; db = db * 2 / 3; if (da + db < 8) { m = (m + 1) / 2; k = (k + 1) / 2; } }
}

static void general(Ctx& c) {
  long m, n, k, da, db;
  if (c.r.one(10)) {                               // composite modulus, non-prime flag
    long p = c.r.pick({4, 6, 15, 91, 1000, 65535, 1048577, 16777215, 1073741823, 35184372088833L}); c.set_p(p);
    shape(c, m, n, k, da, db);
    if (c.r.one(3)) { m = c.r.in(8, 14); n = c.r.in(8, 14); k = c.r.in(8, 14); da = c.r.in(6, 25); db = c.r.in(6, 25); }
    event3(c, "multiply_np", gen0, c.pmat(m, n, da), c.pmat(n, k, db));
    return;
  }
  c.prime(); shape(c, m, n, k, da, db);
  if (c.r.one(40)) { if (c.r.one(2)) m = 0; else k = 0; }
  Mat<zz_pX> a = c.pmat(m, n, da), b = c.pmat(n, k, db);
  switch (c.r.in(0, 6)) {
  case 0: case 1: case 2: event3(c, "multiply", gen1, a, b); break;
  case 3: event3(c, "star", opstar, a, b); break;
  case 4: {
    Vec<zz_pX> v = c.pvec(n, db), x; if (c.r.one(2)) x = c.pvec(3, 2);
    c.op("mulvec"); c.in("a", a); c.in("b", v); c.call(); if (c.r.one(2)) multiply(x, a, v); else x = a * v; c.ret(); c.out("c", x); c.end(); break; }
  case 5: {
    Vec<zz_pX> v = c.pvec(m, db), x; if (c.r.one(2)) x = c.pvec(3, 2);
    c.op("vecmul"); c.in("a", v); c.in("b", a); c.call(); if (c.r.one(2)) multiply(x, v, a); else x = v * a; c.ret(); c.out("c", x); c.end(); break; }
  default: {
    long t = c.r.in(0, da + db + 3); Mat<zz_pX> x = dirty(c);
    c.op("multrunc"); c.in("a", a); c.in("b", b); c.val("t", t); c.call(); if (c.r.one(2)) mul_trunc(x, a, b, t); else x = mul_trunc(a, b, t); c.ret(); c.out("c", x); c.end(); break; }
  }
}

// square products at the sizes where the dispatcher switches algorithm
static void dispatch(Ctx& c) {
  static const int cls[] = {PSMALL, P16, P24, P30, P45, P59, P60, PFFT, PUFFT};
  c.prime_cls(cls[c.r.in(0, 8)]);
  long s = c.r.pick({1, 2, 2, 3, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 21}), d = c.r.pick({4, 5, 6, 7, 8, 12, 14, 15, 16, 24, 25, 26, 40, 80, 200, 201, 250, 251});
  while (s * s * d > 3000) d = d * 2 / 3;
  if (s <= 3 && c.r.one(3)) d = c.r.in(150, 300);
  Mat<zz_pX> a = c.r.one(3) ? c.pmat(s, s, d) : c.pmat_dense(s, s, d), b = c.r.one(3) ? c.pmat(s, s, d) : c.pmat_dense(s, s, c.r.one(3) ? c.r.in(1, d) : d);
  event3(c, "multiply", gen1, a, b);
}

// larger products over FFT primes: the bands of (dimension, degree) of the FFT dispatcher
static void band(Ctx& c) {
  bool sm = c.r.one(2); c.prime_cls(sm ? PUFFT : PFFT);
  long m, n, k, d = c.r.pick({4, 20, 31, 32, 33, 50, 51, 80, 81, 100, 101});
  long cube = c.r.pick({600, 4097, 4913, 8000, 8001, 15625, 17000});
  if (c.r.one(2)) { m = 1; while (m * m * m < cube) m++; n = k = m; }
  else { m = c.r.in(1, 3); n = c.r.in(8, 40); k = cube / (m * n) + 1; if (c.r.one(2)) std::swap(m, k); }
  while (m * n * k * d * d > 40000000 || (m * n + n * k + m * k) * d > 100000) d = d * 3 / 4;
  while (!is_FFT_ready(NextPowerOfTwo(2 * d + 1))) d /= 2;
  event3(c, "fft", multiply_evaluate_FFT, c.pmat_dense(m, n, d), c.pmat_dense(n, k, c.r.one(3) ? c.r.in(d / 2, d) : d));
}
// a coefficient of the product over the integers is a multiple of one of the auxiliary FFT primes
static void cancel(Ctx& c) {
  long q; { zz_pPush push; zz_p::FFTInit(c.r.in(0, 3)); q = zz_p::modulus(); }
  c.prime_of({P59, P60, P60}); long p = zz_p::modulus();
  long m = c.r.in(1, 2), n = c.r.in(2, 4), k = c.r.in(1, 2), da = c.r.in(0, 5), db = c.r.in(0, 5);
  Mat<zz_pX> a = c.pmat_dense(m, n, da), b = c.pmat_dense(n, k, db);
  for (int t = 0; t < 20; t++) {
    ZZ s(0); for (long i = 0; i + 1 < n; i++) s += ZZ(rep(coeff(a[0][i], da))) * ZZ(rep(coeff(b[i][0], db)));
    zz_p l = c.elt(); if (IsZero(l) || rep(l) == q) continue; SetCoeff(a[0][n - 1], da, l);
    long w = to_long(MulMod(ZZ(q) - s % ZZ(q), InvMod(ZZ(rep(l)) % ZZ(q), ZZ(q)), ZZ(q)));
    if (w < p) { SetCoeff(b[n - 1][0], db, w); break; }
  }
  if (deg(a) < 0) SetCoeff(a[0][0], 0, 1); if (deg(b) < 0) SetCoeff(b[0][0], 0, 1);
  if (c.r.one(2)) event3(c, "primes3", multiply_3_primes, a, b);
  else {
    c.op("lm.new"); c.val("id", 1); c.val("kind", "primes3"); c.in("a", a); c.val("dB", db); c.call(); mat_lzz_pX_lmultiplier_3_primes L(a, db);
    c.ret(); c.out("nr", L.NumRows()); c.out("nc", L.NumCols()); c.out("da", L.degA()); c.out("db", L.degB()); c.end();
    Mat<zz_pX> x = dirty(c); c.op("lm.mul"); c.val("id", 1); c.in("b", b); c.call(); L.multiply(x, b); c.ret(); c.out("c", x); c.end();
  }
}

struct Alg { const char* name; mulfn f; int kind; };
static const Alg ALGS[] = {
  {"naive", multiply_naive, 0}, {"waksman", multiply_waksman, 0}, {"tr_naive", multiply_transform_naive, 5}, {"tr_kar", multiply_transform_karatsuba, 1},
  {"tr_mont3", multiply_transform_montgomery3, 2}, {"tr_kar4", multiply_transform_karatsuba4, 3}, {"tr", trs_len, 5},
  {"dense", multiply_evaluate_dense, 6}, {"dense2", multiply_evaluate_dense2, 6},
  {"fft", multiply_evaluate_FFT, 7}, {"fft_mm1", multiply_evaluate_FFT_matmul1, 7}, {"fft_mm2", multiply_evaluate_FFT_matmul2, 7}, {"fft_mm3", multiply_evaluate_FFT_matmul3, 7},
  {"fft_ll", multiply_evaluate_FFT_direct_ll_type, 7}, {"fft_direct", multiply_evaluate_FFT_direct, 7},
  {"primes3", multiply_3_primes, 8}, {"geom", multiply_evaluate_geometric, 9}};

static void special(Ctx& c) {
  const Alg& A = ALGS[c.idx % (sizeof(ALGS) / sizeof(Alg))];
  long m, n, k, da, db;
  shape(c, m, n, k, da, db);
  long p; bool mx = false;
  switch (A.kind) {
  case 0: if (c.r.one(4)) c.set_p(c.r.pick({4, 6, 8, 15, 91, 1000, 65535, 1048576, 1073741822, 35184372088832L})); else c.prime(); break;
  case 1: case 2: case 3: c.prime(); da = c.r.in(0, A.kind); db = c.r.in(0, A.kind); break;
  case 5: c.prime(); da = std::min(da, 12L); db = std::min(db, 12L); break;
  case 6: c.prime_min(2 * (da + db + 1) + 3); if (c.r.one(3)) { da = c.r.in(0, 5); db = c.r.in(0, 5); } break;
  case 7: p = c.prime_cls(c.r.one(3) ? PUFFT : PFFT); while (!is_FFT_ready(NextPowerOfTwo(da + db + 1))) { da /= 2; db /= 2; } break;
  case 8: if (c.r.one(3)) c.prime(); else { c.prime_crt(n * (std::min(da, db) + 1)); mx = c.r.one(2); } break;
  case 9: c.prime_min(20 * (da + db + 2)); break;
  }
  Mat<zz_pX> a = mx ? c.pmat_max(m, n, da) : c.pmat(m, n, da), b = mx ? c.pmat_max(n, k, db) : c.pmat(n, k, db);
  // specialised routines are specified for nonzero operands of degree >= 0, except the general-purpose ones
  if (A.kind != 0 && A.kind != 9) { if (deg(a) < 0) a = c.pmat_dense(m, n, da); if (deg(b) < 0) b = c.pmat_dense(n, k, db); if (deg(a) < 0) SetCoeff(a[0][0], 0, 1); if (deg(b) < 0) SetCoeff(b[0][0], 0, 1); }
  event3(c, A.name, A.f, a, b);
}

// inner dimension beyond the 255-term accumulation slices
static void longinner(Ctx& c) {
  int w = c.r.in(0, 3);
  c.prime_cls(w == 0 ? P60 : w == 1 ? PUFFT : w == 2 ? P30 : PFFT);
  long n = c.r.pick({254, 255, 256, 257, 300, 510, 511, 512}), m = c.r.in(1, 2), k = c.r.in(1, 2), da = c.r.in(1, 3), db = c.r.in(1, 3);
  Mat<zz_pX> a = c.r.one(2) ? c.pmat_dense(m, n, da) : c.pmat(m, n, da), b = c.r.one(2) ? c.pmat_dense(n, k, db) : c.pmat(n, k, db);
  if (deg(a) < 0) SetCoeff(a[0][0], 0, 1); if (deg(b) < 0) SetCoeff(b[0][0], 0, 1);
  if (is_FFT_ready(NextPowerOfTwo(7)) && c.r.one(2)) event3(c, "fft_ll", multiply_evaluate_FFT_direct_ll_type, a, b);
  else if (c.r.one(2)) event3(c, "primes3", multiply_3_primes, a, b);
  else event3(c, "multiply", gen1, a, b);
}

// one multiplier object used on a sequence of right operands
static void lmult(Ctx& c) {
  long m = dim(c), n = dim(c), da = c.r.one(6) ? c.r.in(100, 170) : c.r.in(0, 35), dB = c.r.one(6) ? c.r.in(60, 120) : c.r.in(0, 35);
  if (da + dB > 80) { m = c.r.in(1, 3); n = c.r.in(1, 3); } else while (m * n * (da + dB) > 2500) { da = da * 2 / 3; dB = dB * 2 / 3; }
  int kind = c.r.in(0, 5);
  bool big = false, mx = false, tall = false;
  if (kind == 1 && c.r.one(6)) { m = c.r.in(2, 4); n = c.r.pick({255, 256, 300, 511}); da = c.r.in(0, 2); dB = c.r.in(0, 2); big = true; }
  switch (kind) {
  case 0: c.prime(); break;     // get_lmultiplier
  case 1: case 2: c.prime_cls(c.r.one(3) ? PUFFT : PFFT); while (!is_FFT_ready(NextPowerOfTwo(da + dB + 1))) { da /= 2; dB /= 2; } break;
  case 3: c.prime_min(20 * (da + dB + 2)); break;
  case 4: c.prime_min(da + dB + 2); break;
  default: if (c.r.one(2)) c.prime(); else { c.prime_crt(n * (std::min(da, dB) + 1)); mx = c.r.one(2); } break;
  }
  if (kind == 0 && type_of_prime() == TYPE_FFT_PRIME) while (!is_FFT_ready(NextPowerOfTwo(da + dB + 1))) { da /= 2; dB /= 2; }
  if (kind == 0 && c.r.one(5) && da + dB < 6) m = c.r.in(100, 103), n = c.r.in(1, 3);
  if (kind == 0 && c.r.one(25)) { c.prime_of({P45, P60, PFFT}); m = c.r.in(98, 204); n = 1; da = c.r.in(140, 165); dB = c.r.in(0, 3); if (type_of_prime() == TYPE_FFT_PRIME) da = c.r.in(0, 4); tall = true; }
  Mat<zz_pX> a = mx ? c.pmat_max(m, n, da) : c.pmat(m, n, da); if (deg(a) < 0) SetCoeff(a[0][0], c.r.in(0, da), 1);
  static const char* nm[] = {"get", "fft_direct", "fft_matmul", "geometric", "dense", "primes3"};
  std::unique_ptr<mat_lzz_pX_lmultiplier> L;
  c.op("lm.new"); c.val("id", 1); c.val("kind", nm[kind]); c.in("a", a); c.val("dB", dB); c.call();
  switch (kind) {
  case 0: L = get_lmultiplier(a, dB); break;
  case 1: L.reset(new mat_lzz_pX_lmultiplier_FFT_direct(a, dB)); break;
  case 2: L.reset(new mat_lzz_pX_lmultiplier_FFT_matmul(a, dB)); break;
  case 3: L.reset(new mat_lzz_pX_lmultiplier_geometric(a, dB)); break;
  case 4: L.reset(new mat_lzz_pX_lmultiplier_dense(a, dB)); break;
  default: L.reset(new mat_lzz_pX_lmultiplier_3_primes(a, dB));
  }
  c.ret(); c.out("nr", L->NumRows()); c.out("nc", L->NumCols()); c.out("da", L->degA()); c.out("db", L->degB()); c.end();
  long uses = c.r.in(2, 4);
  for (long u = 0; u < uses; u++) {
    long k = big ? c.r.in(4, 6) : tall ? 1 : std::min(dim(c), 12L), d = c.r.one(2) ? dB : c.r.in(0, dB);
    if (n * k * d > 4000) k = 1;
    Mat<zz_pX> b = mx ? c.pmat_max(n, k, d) : c.pmat(n, k, d), x = dirty(c);
    if (deg(b) < 0) SetCoeff(b[0][0], 0, 1);
    bool al = c.r.one(4), rt = c.r.one(3);
    c.op("lm.mul"); c.val("id", 1);
    if (al) c.val("b", b); else c.in("b", b);
    c.call();
    if (al) { L->multiply(b, b); x = b; } else if (rt) x = L->multiply(b); else L->multiply(x, b);
    c.ret(); c.out("c", x); c.end();
  }
}

// products by constants (field element, polynomial, constant matrix)
static void bycst(Ctx& c) {
  c.prime();
  long m = dim(c), n = dim(c), k = dim(c), d = c.r.in(0, 12);
  while (m * n * d > 2000) d /= 2;
  Mat<zz_pX> a = c.pmat(m, n, d), x = dirty(c);
  switch (c.r.in(0, 5)) {
  case 0: { zz_p e = c.elt(); int v = c.r.in(0, 3); c.op("mul.s"); if (v == 3) c.val("a", a); else c.in("a", a); c.in("s", e); c.call();
    if (v == 0) mul(x, a, e); else if (v == 1) mul(x, e, a); else if (v == 2) x = e * a; else { mul(a, a, e); x = a; } c.ret(); c.out("c", x); c.end(); break; }
  case 1: { zz_pX e = c.poly(c.r.in(0, 9)); int v = c.r.in(0, 3); c.op("mul.p"); if (v == 3) c.val("a", a); else c.in("a", a); c.in("s", e); c.call();
    if (v == 0) mul(x, a, e); else if (v == 1) mul(x, e, a); else if (v == 2) x = a * e; else { mul(a, a, e); x = a; } c.ret(); c.out("c", x); c.end(); break; }
  case 2: { Mat<zz_p> e = c.mat(n, k); int v = c.r.in(0, 2); c.op("mul.pmc"); if (v == 2) c.val("a", a); else c.in("a", a); c.in("b", e); c.call();
    if (v == 0) mul(x, a, e); else if (v == 1) x = a * e; else { a *= e; x = a; } c.ret(); c.out("c", x); c.end(); break; }
  case 3: { Mat<zz_p> e = c.mat(k, m); int v = c.r.in(0, 2); c.op("mul.cpm"); if (v == 2) c.val("b", a); else c.in("b", a); c.in("a", e); c.call();
    if (v == 0) mul(x, e, a); else if (v == 1) x = e * a; else { mul(a, e, a); x = a; } c.ret(); c.out("c", x); c.end(); break; }
  case 4: { Vec<zz_pX> w = c.pvec(n, d), y; zz_p e = c.elt(); int v = c.r.in(0, 2); c.op("vmul.s"); if (v == 2) c.val("a", w); else c.in("a", w); c.in("s", e); c.call();
    if (v == 0) mul(y, w, e); else if (v == 1) y = e * w; else { mul(w, w, e); y = w; } c.ret(); c.out("c", y); c.end(); break; }
  default: { Vec<zz_pX> w = c.pvec(n, d), y; zz_pX e = c.poly(c.r.in(0, 9)); int v = c.r.in(0, 2); c.op("vmul.p"); if (v == 2) c.val("a", w); else c.in("a", w); c.in("s", e); c.call();
    if (v == 0) mul(y, w, e); else if (v == 1) y = w * e; else { mul(w, w, e); y = w; } c.ret(); c.out("c", y); c.end(); break; }
  }
}

// exhaustive small scopes: every applicable algorithm on the pair
static void small(Ctx& c) {
  Small S(c);
  for (const Alg& A : ALGS) {
    long d = S.len - 1;
    bool ok = A.kind == 0 || A.kind == 5 || A.kind == 8 || (A.kind <= 3 && d <= A.kind) || (A.kind == 6 && S.p >= 4 * d + 5) || A.kind == 9;
    if (A.kind == 9 && S.p < 20 * (2 * d + 2)) ok = false;
    if (A.kind != 0 && A.kind != 9 && (deg(S.F) < 0 || deg(S.G) < 0)) ok = false;
    if (ok) event3(c, A.name, A.f, S.F, S.G);
  }
  event3(c, "multiply", gen1, S.F, S.G); event3(c, "star", opstar, S.F, S.G);
  { Mat<zz_pX> x; long t = S.k; c.op("multrunc"); c.in("a", S.F); c.in("b", S.G); c.val("t", t); c.call(); mul_trunc(x, S.F, S.G, t); c.ret(); c.out("c", x); c.end(); }
  if (S.c2 == 1) { Vec<zz_pX> v, x; v.SetLength(S.r2); for (long i = 0; i < S.r2; i++) v[i] = S.G[i][0]; c.op("mulvec"); c.in("a", S.F); c.in("b", v); c.call(); multiply(x, S.F, v); c.ret(); c.out("c", x); c.end(); }
}
static void run(Ctx& c) {
  if (!c.tok.empty()) { small(c); return; }
  long k = c.idx % 20;
  if (k < 5) general(c);
  else if (k < 8) dispatch(c);
  else if (k < 13) special(c);
  else if (k == 13) { if (c.idx % 40 == 13) longinner(c); else if (c.idx % 160 == 33) band(c); else if (c.idx % 80 == 73) cancel(c); else special(c); }
  else if (k < 17) lmult(c);
  else bycst(c);
}
static long ncases(bool deep) { return deep ? 40000 : 5000; }
Suite THE_SUITE = {"C01", run, ncases};
