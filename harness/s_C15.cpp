// C15: structured matrices over the field against their dense form.
#include "struct.h"
static long dim(Ctx& c) { long x = c.r.in(0, 15); return x == 0 ? c.r.in(60, 130) : x <= 3 ? 1 : x <= 5 ? c.r.in(20, 45) : c.r.in(1, 14); }
static Vec<zz_p> dirtyv(Ctx& c, long n) { Vec<zz_p> v; if (c.r.one(2)) v = c.vec(c.r.one(2) ? n : c.r.in(0, n + 5)); return v; }
static Mat<zz_p> dirtym(Ctx& c, long a, long b) { Mat<zz_p> v; if (c.r.one(2)) v = c.r.one(2) ? c.mat(a, b) : c.mat(c.r.in(0, a + 3), c.r.in(0, b + 3)); return v; }
// operands of products: a third has rows or columns that end (or start) with zeros
static Mat<zz_p> opnd(Ctx& c, long a, long b) {
  Mat<zz_p> v = c.mat(a, b); if (!c.r.one(3)) return v;
  bool rows = c.r.one(2), hd = c.r.one(3); long w = rows ? b : a;
  for (long i = 0; i < (rows ? a : b); i++) if (c.r.one(2)) for (long t = c.r.in(0, w) - 1; t >= 0; t--) { long j = hd ? t : w - 1 - t; (rows ? v[i][j] : v[j][i]) = 0; }
  return v;
}
static void created(Ctx& c, const structured_lzz_p& o, bool dirty = true) {
  Mat<zz_p> M; if (dirty) M = dirtym(c, o.NumRows(), o.NumCols()); o.to_dense(M); long nr = o.NumRows(), nc = o.NumCols();
  c.ret(); c.out("nr", nr); c.out("nc", nc); c.out("M", M);
}
static long wide_k;   // > 0: number of columns of the operands of matrix products
static void use(Ctx& c, const structured_lzz_p& o) {
  long m = o.NumRows(), n = o.NumCols(); bool al = false;
  for (long it = c.r.in(2, 5); it > 0; it--) switch (wide_k ? c.r.in(3, 4) : c.r.in(0, 4)) {
    case 0: if (m * n > 3000) { it++; if (!c.r.one(4)) break; it--; } { Mat<zz_p> M = dirtym(c, m, n); c.op("st.dense"); c.val("id", 0L); c.call(); o.to_dense(M); c.ret(); c.out("c", M); c.end(); } break;
    case 1: { Vec<zz_p> v = c.vec(n), r = dirtyv(c, m); c.op("st.mulr"); c.val("id", 0L); al = c.r.one(6);
      if (al) { r = v; c.val("v", v); c.call(); o.mul_right(r, r); } else { c.in("v", v); c.call(); o.mul_right(r, v); } c.ret(); c.out("c", r); c.end(); } break;
    case 2: { Vec<zz_p> v = c.vec(m), r = dirtyv(c, n); c.op("st.mull"); c.val("id", 0L); al = c.r.one(6);
      if (al) { r = v; c.val("v", v); c.call(); o.mul_left(r, r); } else { c.in("v", v); c.call(); o.mul_left(r, v); } c.ret(); c.out("c", r); c.end(); } break;
    case 3: { long k = wide_k ? wide_k : m * n > 3000 ? c.r.in(1, 5) : c.r.one(3) ? c.r.in(1, 12) : c.r.in(0, 3); Mat<zz_p> v = opnd(c, n, k), r = dirtym(c, m, k); c.op("st.mulrm"); c.val("id", 0L); al = c.r.one(6);
      if (al) { r = v; c.val("v", v); c.call(); o.mul_right(r, r); } else { c.in("v", v); c.call(); o.mul_right(r, v); } c.ret(); c.out("c", r); c.end(); } break;
    default: { long k = wide_k ? wide_k : m * n > 3000 ? c.r.in(1, 5) : c.r.one(3) ? c.r.in(1, 12) : c.r.in(0, 3); Mat<zz_p> v = opnd(c, k, m), r = dirtym(c, k, n); c.op("st.mullm"); c.val("id", 0L); al = c.r.one(6);
      if (al) { r = v; c.val("v", v); c.call(); o.mul_left(r, r); } else { c.in("v", v); c.call(); o.mul_left(r, v); } c.ret(); c.out("c", r); c.end(); } break;
  }
}
template <class T> static void use_mosaic(Ctx& c, const T& o) {
  long nb = o.NumBlockRows(), mb = o.NumBlockCols(); Vec<zz_p> v;
  for (long it = c.r.in(1, 4); it > 0; it--) switch (c.r.in(0, 5)) {
    case 0: { long k = c.r.in(0, mb - 1); v = dirtyv(c, o.NumRows()); c.op("st.fcol"); c.val("id", 0L); c.val("k", k); c.call(); o.first_column_of_block(v, k); c.ret(); c.out("c", v); c.end(); } break;
    case 1: { long k = c.r.in(0, mb - 1); v = dirtyv(c, o.NumRows()); c.op("st.lcol"); c.val("id", 0L); c.val("k", k); c.call(); o.last_column_of_block(v, k); c.ret(); c.out("c", v); c.end(); } break;
    case 2: { long k = c.r.in(0, nb - 1); v = dirtyv(c, o.NumCols()); c.op("st.frow"); c.val("id", 0L); c.val("k", k); c.call(); o.first_row_of_block(v, k); c.ret(); c.out("c", v); c.end(); } break;
    case 3: { long k = c.r.in(0, nb - 1); v = dirtyv(c, o.NumCols()); c.op("st.lrow"); c.val("id", 0L); c.val("k", k); c.call(); o.last_row_of_block(v, k); c.ret(); c.out("c", v); c.end(); } break;
    default: { Mat<zz_p> G = dirtym(c, o.NumRows(), nb + mb), H = dirtym(c, o.NumCols(), nb + mb); c.op("st.gens"); c.val("id", 0L); c.call(); o.phi_plus_generators(G, H); c.ret(); c.out("G", G); c.out("H", H); c.end(); }
  }
}
template <class T> static void entry(Ctx& c, const T& o) { if (!c.r.one(3)) return; long k = c.r.in(0, o.NumRows() - 1), l = c.r.in(0, o.NumCols() - 1); c.op("st.entry"); c.val("id", 0L); c.val("k", k); c.val("l", l); c.call(); zz_p x = o(k, l); c.ret(); c.out("c", x); c.end(); }
template <class T> static void mosaic(Ctx& c, const char* kind) {
  long nb = c.r.in(1, 4), mb = c.r.in(1, 4), mx = c.r.one(12) ? 70 : c.r.one(3) ? 12 : 4; if (c.r.one(4)) nb = 1; if (c.r.one(4)) mb = 1; if (wide_k) { nb = c.r.in(1, 3); mb = c.r.in(1, 3); }
  auto rs = parts(c, nb, mx), cs = parts(c, mb, mx);
  if (wide_k) { long t = 101 + c.r.in(0, 7), u = 101 + c.r.in(0, 7); for (long i = 0; i < nb; i++) rs[i] = t / nb + (i < t % nb); for (long i = 0; i < mb; i++) cs[i] = u / mb + (i < u % mb); } Vec<Vec<Vec<zz_p>>> d;
  typedef typename std::remove_const<typename std::remove_reference<decltype(T().data[0][0])>::type>::type B;
  auto b = blocks<B>(c, rs, cs, d);
  c.op("st.new"); c.val("id", 0L); c.val("kind", kind); c.val("rs", rs); c.val("cs", cs); c.in("d", d); c.call(); T o(b); created(c, o);
  c.out("nb", o.NumBlockRows()); c.out("mb", o.NumBlockCols()); std::vector<long> brs, bcs; for (long i = 0; i < nb; i++) brs.push_back(o.NumRows_of_block(i)); for (long i = 0; i < mb; i++) bcs.push_back(o.NumCols_of_block(i));
  c.out("brs", brs); c.out("bcs", bcs); c.end();
  use(c, o); use_mosaic(c, o); entry(c, o);
}
template <class T> static void like(Ctx& c, const char* kind) {
  long m = dim(c), n = dim(c), a = c.r.one(5) ? c.r.in(5, 9) : c.r.in(1, 4); if (m > 50 && n > 50) n = c.r.in(1, 50); Mat<zz_p> G = c.mat(m, a), H = c.mat(n, a);
  c.op("st.new"); c.val("id", 0L); c.val("kind", kind); c.in("G", G); c.in("H", H); c.call(); T o(G, H); created(c, o); c.end(); use(c, o);
  if (c.r.one(4)) { T q(o); use(c, q); }
}
// exhaustive small scopes: all data of a few entries
static void small(Ctx& c) {
  Small S(c); long N = S.n, m = S.k, n = N + 1 - m; Vec<zz_p> d; d.SetLength(N); for (long i = 0; i < N; i++) d[i] = coeff(S.F[0][i], 0);
  if (n >= 1) { c.op("st.new"); c.val("id", 0L); c.val("kind", "hankel"); c.val("r", m); c.val("cc", n); c.in("d", d); c.call(); hankel_lzz_p o(d, m, n); created(c, o); c.end(); use(c, o); entry(c, o); }
  if (n >= 1) { c.op("st.new"); c.val("id", 0L); c.val("kind", "toeplitz"); c.val("r", m); c.val("cc", n); c.in("d", d); c.call(); toeplitz_lzz_p o(d, m, n); created(c, o); c.end(); use(c, o); entry(c, o); }
  if (m == 1) { c.op("st.new"); c.val("id", 0L); c.val("kind", "ltt"); c.in("d", d); c.call(); lower_triangular_toeplitz_lzz_p o(d); created(c, o); c.end(); use(c, o); }
  { c.op("st.new"); c.val("id", 0L); c.val("kind", "circrow"); c.val("r", m); c.in("d", d); c.call(); circulant_row_lzz_p o(d, m); created(c, o); c.end(); use(c, o); }
  { c.op("st.new"); c.val("id", 0L); c.val("kind", "circcol"); c.val("cc", m); c.in("d", d); c.call(); circulant_column_lzz_p o(d, m); created(c, o); c.end(); use(c, o); }
}
static void run(Ctx& c) {
  if (!c.tok.empty()) { small(c); return; }
  c.prime();
  long m = dim(c), n = dim(c); if (m > 50 && n > 50 && c.r.one(2)) n = c.r.in(1, 50);
  bool big = c.idx % 12 == 11;        // beyond the crossover to cached FFTs
  if (big) { c.prime_of({PTINY, PSMALL, P24, PFFT, PUFFT, PFFT}); m = c.r.in(74, 90); n = c.r.in(74, 90); if (c.r.one(3)) m = c.r.in(30, 60); else if (c.r.one(3)) n = c.r.in(30, 60); }
  // close to square, larger than the dense shortcut's limit, with about as many columns as it asks for
  bool wide = c.idx % 100 == 37; wide_k = wide ? c.r.in(26, 30) : 0; if (wide) { c.prime_of({PFFT, PFFT, PUFFT}); m = c.r.in(101, 108); n = c.r.in(101, 108); }
  switch (wide ? (c.r.one(3) ? c.r.in(11, 12) : c.r.in(0, 1)) : big ? c.r.in(0, 5) % 5 : c.r.in(0, 13)) {
    case 0: { Vec<zz_p> d = c.vec(m + n - 1); c.op("st.new"); c.val("id", 0L); c.val("kind", "hankel"); c.val("r", m); c.val("cc", n); c.in("d", d); c.call(); hankel_lzz_p o(d, m, n); created(c, o); c.end(); use(c, o); entry(c, o); } break;
    case 1: { Vec<zz_p> d = c.vec(m + n - 1); c.op("st.new"); c.val("id", 0L); c.val("kind", "toeplitz"); c.val("r", m); c.val("cc", n); c.in("d", d); c.call(); toeplitz_lzz_p o(d, m, n); created(c, o); c.end(); use(c, o); entry(c, o); } break;
    case 2: { Vec<zz_p> d = c.vec(m); c.op("st.new"); c.val("id", 0L); c.val("kind", "ltt"); c.in("d", d); c.call(); lower_triangular_toeplitz_lzz_p o(d); created(c, o); c.end(); use(c, o); } break;
    case 3: { Vec<zz_p> d = c.vec(n); c.op("st.new"); c.val("id", 0L); c.val("kind", "circrow"); c.val("r", m); c.in("d", d); c.call(); circulant_row_lzz_p o(d, m); created(c, o); c.end(); use(c, o); } break;
    case 4: { Vec<zz_p> d = c.vec(m); c.op("st.new"); c.val("id", 0L); c.val("kind", "circcol"); c.val("cc", n); c.in("d", d); c.call(); circulant_column_lzz_p o(d, n); created(c, o); c.end(); use(c, o); } break;
    case 5: like<toeplitz_like_plus_lzz_p>(c, "tplus"); break;
    case 6: like<toeplitz_like_minus_lzz_p>(c, "tminus"); break;
    case 7: like<hankel_like_plus_lzz_p>(c, "hplus"); break;
    case 8: like<hankel_like_minus_lzz_p>(c, "hminus"); break;
    case 9: case 10: { zz_p u, v, rho; if (!cauchy_params(c, u, v, rho, m, n)) { m = c.r.in(1, 3); n = c.r.in(1, 3); if (!cauchy_params(c, u, v, rho, m, n)) return; }
      if (c.r.one(2)) {
        c.op("st.new"); c.val("id", 0L); c.val("kind", "cauchy"); c.val("r", m); c.val("cc", n); c.in("u", u); c.in("v", v); c.in("rho", rho); c.call(); cauchy_geometric_lzz_p o(u, v, rho, m, n); created(c, o); c.end(); use(c, o);
        for (long it = 2; it > 0; it--) switch (c.r.in(0, 3)) {
          case 0: { Vec<zz_p> x = c.vec(n), r = dirtyv(c, m); c.op("st.simr"); c.val("id", 0L); c.in("v", x); c.call(); o.mul_right_simple(r, x); c.ret(); c.out("c", r); c.end(); } break;
          case 1: { Vec<zz_p> x = c.vec(m), r = dirtyv(c, n); c.op("st.siml"); c.val("id", 0L); c.in("v", x); c.call(); o.mul_left_simple(r, x); c.ret(); c.out("c", r); c.end(); } break;
          case 2: { long k = c.r.in(1, 3); Mat<zz_p> x = opnd(c, n, k), r = dirtym(c, m, k); c.op("st.simrm"); c.val("id", 0L); c.in("v", x); c.call(); o.mul_right_simple(r, x); c.ret(); c.out("c", r); c.end(); } break;
          default: { long k = c.r.in(1, 3); Mat<zz_p> x = opnd(c, k, m), r = dirtym(c, k, n); c.op("st.simlm"); c.val("id", 0L); c.in("v", x); c.call(); o.mul_left_simple(r, x); c.ret(); c.out("c", r); c.end(); }
        }
      } else {
        long a = c.r.one(4) ? c.r.in(5, 20) : c.r.in(1, 4); Mat<zz_p> G = c.mat(m, a), H = c.mat(n, a);
        c.op("st.new"); c.val("id", 0L); c.val("kind", "clike"); c.in("u", u); c.in("v", v); c.in("rho", rho); c.in("G", G); c.in("H", H); c.call(); cauchy_like_geometric_lzz_p o(G, H, u, v, rho); created(c, o); c.end(); use(c, o);
        if (c.r.one(3)) { Mat<zz_p> x = c.mat(n, c.r.in(1, 4)), r = dirtym(c, m, 2); c.op("st.mulrm"); c.val("id", 0L); c.in("v", x); c.call(); o.mul_right_direct(r, x); c.ret(); c.out("c", r); c.end(); }
      } } break;
    case 11: mosaic<mosaic_hankel_lzz_p>(c, "mhankel"); break;
    case 12: mosaic<mosaic_toeplitz_lzz_p>(c, "mtoeplitz"); break;
    default: { long da = c.r.one(12) ? c.r.in(30, 70) : c.r.in(0, 12), db = c.r.one(12) ? c.r.in(30, 70) : c.r.in(0, 12); if (da + db == 0) da = 1; zz_pX a = c.poly_exact(da), b = c.poly_exact(db);
      c.op("st.new"); c.val("id", 0L); c.val("kind", "sylvester"); c.in("a", a); c.in("b", b); c.call(); sylvester_lzz_p o(a, b); created(c, o); c.end(); use(c, o);
      { Mat<zz_p> G = dirtym(c, da + db, 2), H = dirtym(c, da + db, 2); c.op("st.gens"); c.val("id", 0L); c.call(); o.phi_plus_generators(G, H); c.ret(); c.out("G", G); c.out("H", H); c.end(); } } break;
  }
  if (c.r.one(8)) {
    bool al = c.r.one(4); long a = c.r.in(1, 9), b = c.r.in(1, 9), k = c.r.in(0, 3); Mat<zz_p> A = c.mat(a, b), R = dirtym(c, a, b); static const char* kn[] = {"tplus", "tminus", "hplus", "hminus"};
    c.op("st.phi"); c.val("kind", kn[k]); if (al) { R = A; c.val("a", A); } else c.in("a", A); c.call(); const Mat<zz_p>& X = al ? R : A; k == 0 ? toeplitz_lzz_p_phi_plus(R, X) : k == 1 ? toeplitz_lzz_p_phi_minus(R, X) : k == 2 ? hankel_lzz_p_phi_plus(R, X) : hankel_lzz_p_phi_minus(R, X); c.ret(); c.out("c", R); c.end();
  }
}
static long ncases(bool deep) { return deep ? 40000 : 4000; }
Suite THE_SUITE = {"C15", run, ncases};
