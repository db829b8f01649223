// C16: structured solvers and inverters.
#include "struct.h"
static Mat<zz_p> dense_of(const structured_lzz_p& o) { Mat<zz_p> M; o.to_dense(M); return M; }
// right-hand sides in and out of the image
static Vec<zz_p> rhs(Ctx& c, const Mat<zz_p>& M) { long k = c.r.in(0, 5); if (k == 0) return c.vec(M.NumRows()); if (k == 1) { Vec<zz_p> z; z.SetLength(M.NumRows()); return z; } Vec<zz_p> b = M * c.vec(M.NumCols()); if (k == 2 && b.length()) b[c.r.in(0, b.length() - 1)] += c.nzelt(); return b; }
static Vec<zz_p> dirtyv(Ctx& c, long n) { Vec<zz_p> v; if (c.r.one(2)) v = c.vec(c.r.in(0, n + 5)); return v; }
static Mat<zz_p> dirtym(Ctx& c, long n) { Mat<zz_p> v; if (c.r.one(2)) v = c.mat(c.r.in(0, n + 3), c.r.in(0, n + 3)); return v; }
// a dense matrix of rank k, with (grp) or without generic rank profile
static Mat<zz_p> ranked(Ctx& c, long m, long n, long k) {
  Mat<zz_p> L = c.mat(m, k), U = c.mat(k, n);
  if (!c.r.one(3)) for (long i = 0; i < k; i++) { for (long j = i + 1; j < k; j++) L[i][j] = 0; L[i][i] = c.nzelt(); for (long j = 0; j < i; j++) U[i][j] = 0; U[i][i] = c.nzelt(); }
  Mat<zz_p> M; mul(M, L, U); M.SetDims(m, n);
  if (m != n && c.r.one(3)) {       // all the rest of the rank outside the leading square
    long N = std::min(m, n); for (long i = 0; i < m; i++) for (long j = 0; j < n; j++) if (i >= N || j >= N) M[i][j] = c.elt();
  } else if (c.r.one(5)) {          // one entry in a corner of the blocks a recursion on halves sees, or outside the leading square
    long N = std::min(m, n); auto at = [&](long z) { long lo = c.r.one(2) ? 0 : c.r.one(2) ? N : (N + 1) / 2; return c.r.in(std::min(lo, z - 1), z - 1); };
    M[at(m)][at(n)] += c.nzelt();
  }
  if (c.r.one(8) && m > 1) { long a = c.r.in(0, m - 1), b = c.r.in(0, m - 1); swap(M[a], M[b]); }
  return M;
}
static void clike(Ctx& c) {
  long big = c.idx % 100 == 17 ? 0 : c.r.in(0, 39); long m, n;       // the recursive algorithm starts at 200
  if (big == 0) { m = c.r.in(200, 230); n = c.r.one(3) ? m : c.r.in(200, 230); } else if (big <= 6) { m = c.r.in(18, 60); n = c.r.one(3) ? m : c.r.in(18, 60); } else { m = c.r.in(1, 14); n = c.r.one(3) ? m : c.r.in(1, 14); }
  zz_p u, v, rho; if (!cauchy_params(c, u, v, rho, m, n)) { m = c.r.in(1, 3); n = c.r.in(1, 3); if (!cauchy_params(c, u, v, rho, m, n)) return; }
  long a; Mat<zz_p> G, H;
  if (c.r.one(2) && m <= 60) {            // an arbitrary matrix: as many generators as columns
    long k = c.r.one(2) ? std::min(m, n) : c.r.one(2) ? c.r.in(0, std::min(m, n) / 2) : c.r.in(0, std::min(m, n)); Mat<zz_p> M = ranked(c, m, n, k); a = n;
    G.SetDims(m, n); H.SetDims(n, n); zz_p x = u; for (long i = 0; i < m; i++) { zz_p y = v; for (long j = 0; j < n; j++) { G[i][j] = M[i][j] * (x - y); y *= rho; } x *= rho; }
    for (long j = 0; j < n; j++) H[j][j] = 1;
  } else if (big == 0 && c.r.one(2)) {    // the leading block of size k is generic, the next one starts after a gap
    long N1 = (std::min(m, n) + 1) / 2; a = 2; G.SetDims(m, a); H.SetDims(n, a); long k = c.r.one(2) ? N1 : c.r.one(2) ? c.r.in(1, N1 - 1) : c.r.in(N1, std::min(m, n) - 1), g = c.r.one(3) ? 0 : c.r.in(0, 2), h = c.r.one(3) ? g : c.r.in(0, 2);
    for (long i = 0; i < k; i++) { G[i][0] = c.nzelt(); H[i][0] = c.nzelt(); } for (long i = k + g; i < m; i++) G[i][1] = c.nzelt(); for (long i = k + h; i < n; i++) H[i][1] = c.nzelt();
  } else if (c.r.one(big == 0 ? 2 : 3)) {   // each pair of generators lives on a block of rows and columns
    a = c.r.in(1, 4); G.SetDims(m, a); H.SetDims(n, a); long N = std::min(m, n);
    auto cut = [&](long z) { switch (c.r.in(0, 5)) { case 0: case 1: return 0L; case 2: return (N + 1) / 2; case 3: return N; case 4: return z; default: return c.r.in(0, z); } };
    for (long k = 0; k < a; k++) {
      long r0 = cut(m), r1 = c.r.one(2) ? m : cut(m), c0 = cut(n), c1 = c.r.one(2) ? n : cut(n); if (r1 < r0) std::swap(r0, r1); if (c1 < c0) std::swap(c0, c1);
      for (long i = r0; i < r1; i++) G[i][k] = c.r.one(8) ? c.elt() : c.nzelt(); for (long j = c0; j < c1; j++) H[j][k] = c.r.one(8) ? c.elt() : c.nzelt();
    }
  } else {
    a = c.r.one(3) ? c.r.in(7, 20) : c.r.in(1, 6); if (big == 0) a = c.r.in(1, 18); G = c.mat(m, a); H = c.mat(n, a); if (c.r.one(3) || big == 0) { for (long i = 0; i < m; i++) for (long j = 0; j < a; j++) G[i][j] = c.nzelt(); for (long i = 0; i < n; i++) for (long j = 0; j < a; j++) H[i][j] = to_zz_p(c.r.in(0, zz_p::modulus() - 1)); }
    if (c.r.one(3)) { long z = c.r.in(0, m); for (long i = z; i < m; i++) clear(G[i]); } else if (c.r.one(4)) { long z = c.r.in(0, n); for (long i = z; i < n; i++) clear(H[i]); }
  }
  c.op("st.new"); c.val("id", 0L); c.val("kind", "clike"); c.in("u", u); c.in("v", v); c.in("rho", rho); c.in("G", G); c.in("H", H); c.call(); cauchy_like_geometric_lzz_p o(G, H, u, v, rho); Mat<zz_p> M = dense_of(o); long nr = o.NumRows(), nc = o.NumCols(); c.ret(); c.out("nr", nr); c.out("nc", nc); c.out("M", M); c.end();
  for (long it = big <= 6 ? 1 : 2; it > 0; it--) {
    long th = c.r.one(3) ? -1 : c.r.one(3) ? c.r.in(1, 40) : c.r.in(1, 1 + std::min(m, n) / 2), ta = c.r.one(2) ? -1 : c.r.in(1, 20);
    if (c.r.one(2)) { Vec<zz_p> b = rhs(c, M), x = dirtyv(c, n); c.op("st.solve"); c.val("id", 0L); c.val("th", th); c.val("ta", ta); bool al = c.r.one(6); if (al) { x = b; c.val("v", b); } else c.in("v", b); c.call(); long r = o.solve_grp(x, al ? x : b, th, ta); c.ret(); c.out("ret", r); c.out("c", x); c.end(); }
    else { cauchy_like_geometric_lzz_p I; bool al = c.r.one(6); if (al) I = o; c.op("st.inv"); c.val("id", 0L); c.val("th", th); c.val("ta", ta); c.call(); long r = (al ? I : o).invert_leading_principal_minor_grp(I, th, ta); Mat<zz_p> D; I.to_dense(D); c.ret(); c.out("ret", r); c.out("c", D); c.end(); }
  }
}
template <class T, class I> static void mosaic(Ctx& c, const char* kind) {
  long nb = c.r.in(1, 4), mb = c.r.in(1, 4), mx = c.r.one(10) ? 20 : c.r.one(3) ? 9 : 4; if (c.r.one(4)) nb = 1; if (c.r.one(4)) mb = 1;
  auto rs = parts(c, nb, mx), cs = parts(c, mb, mx);
  long n = 0, m = 0; for (long x : rs) n += x; for (long x : cs) m += x;
  if (c.r.one(2)) { while (m < n) { cs[c.r.in(0, mb - 1)]++; m++; } while (n < m) { rs[c.r.in(0, nb - 1)]++; n++; } }
  Vec<Vec<Vec<zz_p>>> d; typedef typename std::remove_const<typename std::remove_reference<decltype(T().data[0][0])>::type>::type B;
  auto b = blocks<B>(c, rs, cs, d);
  c.op("st.new"); c.val("id", 0L); c.val("kind", kind); c.val("rs", rs); c.val("cs", cs); c.in("d", d); c.call(); T o(b); Mat<zz_p> M = dense_of(o); long nr = o.NumRows(), nc = o.NumCols(); c.ret(); c.out("nr", nr); c.out("nc", nc); c.out("M", M);
  c.out("nb", o.NumBlockRows()); c.out("mb", o.NumBlockCols()); std::vector<long> brs, bcs; for (long i = 0; i < nb; i++) brs.push_back(o.NumRows_of_block(i)); for (long i = 0; i < mb; i++) bcs.push_back(o.NumCols_of_block(i));
  c.out("brs", brs); c.out("bcs", bcs); c.end();
  for (long it = 3; it > 0; it--) {
    long th = c.r.one(2) ? -1 : c.r.in(1, 40), ta = c.r.one(2) ? -1 : c.r.in(1, 20);
    if (n != m || c.r.one(2)) { Vec<zz_p> b = rhs(c, M), x = dirtyv(c, m); c.op("st.solve"); c.val("id", 0L); c.val("th", th); c.val("ta", ta); c.in("v", b); c.call(); long r = o.solve(x, b, th, ta); c.ret(); c.out("ret", r); c.out("c", x); c.end(); }
    else { I inv; c.op("st.inv"); c.val("id", 0L); c.val("th", th); c.val("ta", ta); c.call(); long r = o.inv(inv, th, ta); Mat<zz_p> D; if (r == 1) inv.to_dense(D); c.ret(); c.out("ret", r); c.out("c", D); c.end(); }
  }
}
static void sylv_use(Ctx& c, const zz_pX& a, const zz_pX& b);
static void sylv(Ctx& c) {
  long da = c.r.one(15) ? c.r.in(20, 60) : c.r.in(0, 9), db = c.r.one(15) ? c.r.in(20, 60) : c.r.in(0, 9); if (da + db == 0) db = 1;
  zz_pX a = c.poly_exact(da), b = c.poly_exact(db);
  if (c.r.one(4)) { zz_pX g = c.poly_exact(c.r.in(1, 2)); a = g * c.poly_exact(c.r.in(0, 4)); b = g * c.poly_exact(c.r.in(0, 4)); da = deg(a); db = deg(b); }
  if (c.r.one(4)) { a = 0; SetCoeff(a, da, c.nzelt()); if (da > 0 && c.r.one(2)) SetCoeff(a, 0, c.elt()); }     // sparse: short Bezout coefficients
  sylv_use(c, a, b);
}
static void sylv_use(Ctx& c, const zz_pX& a, const zz_pX& b) {
  long n = deg(a) + deg(b);
  c.op("st.new"); c.val("id", 0L); c.val("kind", "sylvester"); c.in("a", a); c.in("b", b); c.call(); sylvester_lzz_p o(a, b); Mat<zz_p> M = dense_of(o); long nr = o.NumRows(), nc = o.NumCols(); c.ret(); c.out("nr", nr); c.out("nc", nc); c.out("M", M); c.end();
  Mat<zz_p> Mi; { zz_p dt; inv(dt, Mi, M); if (dt == 0) Mi.SetDims(0, 0); }
  for (long it = c.r.in(2, 5); it > 0; it--) switch (c.r.in(0, 6)) {
    case 0: { c.op("st.prep"); c.val("id", 0L); c.call(); o.prepare_inverse(); c.ret(); c.end(); } break;
    case 1: { Vec<zz_p> v = c.vec(n), x = dirtyv(c, n); bool al = c.r.one(6); c.op("st.solve"); c.val("id", 0L); long r; if (al) { x = v; c.val("v", v); c.call(); r = o.solve(x, x); } else { c.in("v", v); c.call(); r = o.solve(x, v); } c.ret(); c.out("ret", r); c.out("c", x); c.end(); } break;
    case 2: { Mat<zz_p> v = c.mat(n, c.r.in(1, 4)), x = dirtym(c, n); bool al = c.r.one(6); c.op("st.solvem"); c.val("id", 0L); long r; if (al) { x = v; c.val("v", v); c.call(); r = o.solve(x, x); } else { c.in("v", v); c.call(); r = o.solve(x, v); } c.ret(); c.out("ret", r); c.out("c", x); c.end(); } break;
    case 3: { Vec<zz_p> v = c.vec(n), x = dirtyv(c, n); bool al = c.r.one(6); c.op("st.solvet"); c.val("id", 0L); long r; if (al) { x = v; c.val("v", v); c.call(); r = o.solve_transpose(x, x); } else { c.in("v", v); c.call(); r = o.solve_transpose(x, v); } c.ret(); c.out("ret", r); c.out("c", x); c.end(); } break;
    case 4: { Mat<zz_p> v = c.mat(c.r.in(1, 4), n), x = dirtym(c, n); bool al = c.r.one(6); c.op("st.solvetm"); c.val("id", 0L); if (al) { x = v; c.val("v", v); } else c.in("v", v); c.call(); long r = o.solve_transpose(x, al ? x : v); c.ret(); c.out("ret", r); c.out("c", x); c.end(); } break;
    case 5: { toeplitz_like_minus_lzz_p I; c.op("st.syinv"); c.val("id", 0L); c.call(); long r = o.inv(I); Mat<zz_p> D; if (r == 1) I.to_dense(D); c.ret(); c.out("ret", r); c.out("c", D); c.end(); } break;
    default: { long k = c.r.one(4) ? n : c.r.in(1, n); Mat<zz_p> D = dirtym(c, n); c.op("st.block"); c.val("id", 0L); c.val("k", k); c.in("inv", Mi); c.call(); long r = o.top_right_block_inverse(D, k); c.ret(); c.out("ret", r); c.out("c", D); c.end(); }
  }
}
// exhaustive small scopes: Sylvester matrices of all pairs of small polynomials; mosaics of all small data, seen in a larger field
template <class T, class I> static void smallmosaic(Ctx& c, const char* kind, const Vec<zz_p>& data, const std::vector<long>& rs, const std::vector<long>& cs) {
  typedef typename std::remove_const<typename std::remove_reference<decltype(T().data[0][0])>::type>::type B;
  Vec<Vec<B>> b; Vec<Vec<Vec<zz_p>>> d; b.SetLength(rs.size()); d.SetLength(rs.size()); long at = 0, m = 0; for (long x : cs) m += x; bool sq = false; { long n = 0; for (long x : rs) n += x; sq = n == m; }
  for (size_t i = 0; i < rs.size(); i++) { b[i].SetLength(cs.size()); d[i].SetLength(cs.size()); for (size_t j = 0; j < cs.size(); j++) { long w = rs[i] + cs[j] - 1; if (at + w > data.length()) at = 0; d[i][j].SetLength(w); for (long t = 0; t < w; t++) d[i][j][t] = data[at++]; b[i][j] = B(d[i][j], rs[i], cs[j]); } }
  c.op("st.new"); c.val("id", 0L); c.val("kind", kind); c.val("rs", rs); c.val("cs", cs); c.in("d", d); c.call(); T o(b); Mat<zz_p> M = dense_of(o); long nr = o.NumRows(), nc = o.NumCols(); c.ret(); c.out("nr", nr); c.out("nc", nc); c.out("M", M);
  c.out("nb", o.NumBlockRows()); c.out("mb", o.NumBlockCols()); std::vector<long> brs, bcs; for (size_t i = 0; i < rs.size(); i++) brs.push_back(o.NumRows_of_block(i)); for (size_t i = 0; i < cs.size(); i++) bcs.push_back(o.NumCols_of_block(i));
  c.out("brs", brs); c.out("bcs", bcs); c.end();
  for (long it = 2; it > 0; it--) { Vec<zz_p> v = rhs(c, M), x; c.op("st.solve"); c.val("id", 0L); c.val("th", -1L); c.val("ta", -1L); c.in("v", v); c.call(); long r = o.solve(x, v); c.ret(); c.out("ret", r); c.out("c", x); c.end(); }
  if (sq) { I inv; c.op("st.inv"); c.val("id", 0L); c.val("th", -1L); c.val("ta", -1L); c.call(); long r = o.inv(inv); Mat<zz_p> D; if (r == 1) inv.to_dense(D); c.ret(); c.out("ret", r); c.out("c", D); c.end(); }
}
static void small(Ctx& c) {
  Small S(c);
  if (S.r2 == 0) {
    std::vector<long> w; for (long i = 0; i < S.n; i++) w.push_back(rep(coeff(S.F[0][i], 0))); c.set_p(c.idx % 2 ? 1009 : 1152921504606846883L); Vec<zz_p> d; for (long x : w) d.append(to_zz_p(x == 2 ? -1 : x));
    std::vector<long> rs, cs; if (S.k == 1) { rs = {3}; cs = {1, 2}; } else if (S.k == 2) { rs = {1, 2}; cs = {2, 1}; } else { rs = {2, 1}; cs = {2}; }
    if (c.idx / 2 % 2) smallmosaic<mosaic_hankel_lzz_p, hankel_like_minus_lzz_p>(c, "mhankel", d, rs, cs); else smallmosaic<mosaic_toeplitz_lzz_p, toeplitz_like_minus_lzz_p>(c, "mtoeplitz", d, rs, cs);
    return;
  }
  zz_pX a = S.F[0][0], b = S.G[0][0]; if (a == 0 || b == 0 || deg(a) + deg(b) == 0) return;
  sylv_use(c, a, b);
}
static void run(Ctx& c) {
  if (!c.tok.empty()) { small(c); return; }
  long k = c.idx % 100 == 17 ? 0 : c.r.in(0, 3);
  if (k >= 2) c.prime_min(c.r.one(2) ? 300 : c.r.one(2) ? 50 : 2); else c.prime();
  switch (k) { case 0: clike(c); break; case 1: sylv(c); break; case 2: mosaic<mosaic_hankel_lzz_p, hankel_like_minus_lzz_p>(c, "mhankel"); break; default: mosaic<mosaic_toeplitz_lzz_p, toeplitz_like_minus_lzz_p>(c, "mtoeplitz"); }
}
static long ncases(bool deep) { return deep ? 30000 : 3600; }
Suite THE_SUITE = {"C16", run, ncases};
