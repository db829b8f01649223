// C04: degrees, pivots, leading matrices, forms.
#include "core.h"
#include "mat_lzz_pX_extra.h"
#include "mat_lzz_pX_forms.h"
typedef Mat<zz_pX> PM; typedef Mat<zz_p> CM;
static PM tr(const PM& a) { PM b; b.SetDims(a.NumCols(), a.NumRows()); for (long i = 0; i < a.NumRows(); i++) for (long j = 0; j < a.NumCols(); j++) b[j][i] = a[i][j]; return b; }
// a matrix in (or close to) one of the forms
static PM structured(Ctx& c, long m, long n, const VecLong& s) {
  PM a; a.SetDims(m, n);
  std::vector<long> piv(n); for (long j = 0; j < n; j++) piv[j] = j;
  for (long j = n - 1; j > 0; j--) std::swap(piv[j], piv[c.r.in(0, j)]);
  if (m <= n) { piv.resize(m); if (!c.r.one(3)) std::sort(piv.begin(), piv.end()); }
  else for (long i = n; i < m; i++) piv.push_back(c.r.in(0, n - 1));
  std::vector<long> pd(m); for (auto& q : pd) q = c.r.in(0, 3);
  bool pop = c.r.one(2);
  for (long i = 0; i < m; i++) for (long j = 0; j < n; j++) {
    if (j == piv[i]) { a[i][j] = c.poly_exact(pd[i]); if (pop || c.r.one(2)) a[i][j] /= LeadCoeff(a[i][j]); continue; }
    long b = pd[i] + s[piv[i]] - s[j] - (j > piv[i] ? 1 : 0);
    if (pop) for (long k = 0; k < m; k++) if (piv[k] == j) b = std::min(b, pd[k] - 1);
    if (b >= 0) a[i][j] = c.r.one(3) ? c.poly(b) : c.r.one(2) ? c.poly_exact(b) : c.dense(b);
  }
  if (c.r.one(3) && m && n) { long i = c.r.in(0, m - 1), j = c.r.in(0, n - 1); long b = pd[i] + s[piv[i]] - s[j] + c.r.in(-1, 1); if (b >= 0 && b < 40) a[i][j] = c.poly_exact(b); }
  if (pop && m > 1 && c.r.one(3)) {     // one entry as large as the pivot of its column, without moving the pivots
    long k = c.r.in(0, m - 1), i = c.r.in(0, m - 1), j = piv[k], b = pd[i] + s[piv[i]] - s[j] - (j > piv[i] ? 1 : 0);
    if (i != k && b >= pd[k]) a[i][j] = c.poly_exact(c.r.one(2) ? pd[k] : b);
  }
  if (c.r.one(6) && m) { Mat<zz_p> t = c.inv_mat(m); PM u; u.SetDims(m, m); for (long i = 0; i < m; i++) for (long j = 0; j < m; j++) u[i][j] = to_zz_pX(t[i][j]); a = naive_mul(u, a); }
  if (c.r.one(8) && m) for (long j = 0; j < n; j++) clear(a[m - 1][j]);
  if (c.r.one(12) && m && n) { long i = c.r.in(0, m - 1), j = c.r.in(0, n - 1); clear(a[i][j]); }
  return a;
}
// exhaustive small scopes: every function on the matrix
static void small(Ctx& c) {
  Small S(c); VecLong& s = S.s; VecLong o, o2; CM l; Mat<long> dm; bool z; long q; bool zs = true; for (long x : s) zs = zs && x == 0;
#define IN(name) c.op(name); c.in("a", a); c.in("s", s); c.call();
#define OUT(v) c.ret(); c.out("c", v); c.end();
  { const PM& a = S.F;
    IN("rdeg") row_degree(o, a, s); OUT(o)
    IN("rpiv") row_pivots(o, o2, a, s); c.ret(); c.out("c", o); c.out("d", o2); c.end();
    IN("degmatr") degree_matrix_rowshifted(dm, a, s); OUT(dm)
    IN("rlead") row_leading_matrix(l, a, s); OUT(l)
    IN("rgetform") q = get_row_polmatform(a, s); OUT(q)
    for (q = 1; q <= 4; q++) { c.op("risform"); c.in("a", a); c.in("s", s); c.val("form", q); c.call();
      z = q == 1 ? is_row_reduced(a, s) : q == 2 ? is_row_weak_popov(a, s) : q == 3 ? is_row_ordered_weak_popov(a, s) : is_row_popov(a, s); OUT(z)
      if (zs) { c.op("risform"); c.in("a", a); c.in("s", s); c.val("form", q); c.call(); z = q == 1 ? is_row_reduced(a) : q == 2 ? is_row_weak_popov(a) : q == 3 ? is_row_ordered_weak_popov(a) : is_row_popov(a); OUT(z) } } }
  { PM a = tr(S.F);
    IN("cdeg") col_degree(o, a, s); OUT(o)
    IN("cpiv") col_pivots(o, o2, a, s); c.ret(); c.out("c", o); c.out("d", o2); c.end();
    IN("clead") col_leading_matrix(l, a, s); OUT(l)
    IN("cgetform") q = get_col_polmatform(a, s); OUT(q)
    for (q = 1; q <= 4; q++) { c.op("cisform"); c.in("a", a); c.in("s", s); c.val("form", q); c.call();
      z = q == 1 ? is_col_reduced(a, s) : q == 2 ? is_col_weak_popov(a, s) : q == 3 ? is_col_ordered_weak_popov(a, s) : is_col_popov(a, s); OUT(z)
      if (zs) { c.op("cisform"); c.in("a", a); c.in("s", s); c.val("form", q); c.call(); z = q == 1 ? is_col_reduced(a) : q == 2 ? is_col_weak_popov(a) : q == 3 ? is_col_ordered_weak_popov(a) : is_col_popov(a); OUT(z) } } }
#undef IN
#undef OUT
}
static void run(Ctx& c) {
  if (!c.tok.empty()) { small(c); return; }
  c.prime();
  long m = c.r.in(1, 4), n = c.r.in(1, 5);
  bool col = (c.idx / 16) % 2, sh = c.r.in(0, 3) != 0;
  VecLong s = sh ? (c.r.one(2) ? c.shift(n, 3) : c.shift(n, c.r.in(1, 12))) : VecLong(n, 0);
  PM a = c.r.one(3) ? c.pmat(m, n, c.r.in(0, 4)) : structured(c, m, n, s);
  if (col) a = tr(a);
  VecLong o; switch (c.r.in(0, 2)) { case 0: break; case 1: o = VecLong(7, 5); break; default: o = VecLong(c.r.in(0, 3), -3); }
  VecLong o2(o);
  CM l = c.mat(c.r.in(0, 5), c.r.in(0, 5)); Mat<long> dm; dm.SetDims(c.r.in(0, 3), 2); for (long i = 0; i < dm.NumRows(); i++) dm[i][0] = 17;
  bool f = c.r.one(2); PolMatForm fm = (PolMatForm)c.r.in(0, 4);
#define IN(name) c.op(name); c.in("a", a); c.in("s", s); c.call();
#define OUT(v) c.ret(); c.out("c", v); c.end();
  switch (c.idx % 16) {
  case 0: if (!col) { IN("rdeg") if (sh) { if (f) row_degree(o, a, s); else o = row_degree(a, s); } else { if (f) row_degree(o, a); else o = row_degree(a); } OUT(o) }
    else { IN("cdeg") if (sh) { if (f) col_degree(o, a, s); else o = col_degree(a, s); } else { if (f) col_degree(o, a); else o = col_degree(a); } OUT(o) } break;
  case 1: case 2: if (!col) { IN("rpiv") if (sh) { if (f) row_pivots(o, o2, a, s); else std::tie(o, o2) = row_pivots(a, s); } else { if (f) row_pivots(o, o2, a); else std::tie(o, o2) = row_pivots(a); } c.ret(); c.out("c", o); c.out("d", o2); c.end(); }
    else { IN("cpiv") if (sh) { if (f) col_pivots(o, o2, a, s); else std::tie(o, o2) = col_pivots(a, s); } else { if (f) col_pivots(o, o2, a); else std::tie(o, o2) = col_pivots(a); } c.ret(); c.out("c", o); c.out("d", o2); c.end(); } break;
  case 3: if (!sh) { IN("degmat") if (f) degree_matrix(dm, a); else dm = degree_matrix(a); OUT(dm) }
    else if (!col) { IN("degmatr") if (f) degree_matrix_rowshifted(dm, a, s); else dm = degree_matrix_rowshifted(a, s); OUT(dm) }
    else { IN("degmatc") if (f) degree_matrix_colshifted(dm, a, s); else dm = degree_matrix_colshifted(a, s); OUT(dm) } break;
  case 4: if (!col) { IN("rlead") if (sh) { if (f) row_leading_matrix(l, a, s); else l = row_leading_matrix(a, s); } else { if (f) row_leading_matrix(l, a); else l = row_leading_matrix(a); } OUT(l) }
    else { IN("clead") if (sh) { if (f) col_leading_matrix(l, a, s); else l = col_leading_matrix(a, s); } else { if (f) col_leading_matrix(l, a); else l = col_leading_matrix(a); } OUT(l) } break;
  case 5: c.op("amp"); c.in("s", s); c.call(); { long q; if (f) amplitude(q, s); else q = amplitude(s); c.ret(); c.out("c", q); c.end(); } break;
  case 6: case 7: case 8: { bool z; c.op(col ? "cisform" : "risform"); c.in("a", a); c.in("s", s); c.val("form", (long)fm); c.val("via", "polmatform"); c.call();
    if (!col) z = sh ? is_row_polmatform(fm, a, s) : is_row_polmatform(fm, a); else z = sh ? is_col_polmatform(fm, a, s) : is_col_polmatform(fm, a); OUT(z) break; }
  case 9: case 10: { long z; c.op(col ? "cgetform" : "rgetform"); c.in("a", a); c.in("s", s); c.call();
    if (!col) z = sh ? get_row_polmatform(a, s) : get_row_polmatform(a); else z = sh ? get_col_polmatform(a, s) : get_col_polmatform(a); OUT(z) break; }
  default: { bool z; long q = c.r.in(1, 4); c.op(col ? "cisform" : "risform"); c.in("a", a); c.in("s", s); c.val("form", q); c.call();
    if (!col) switch (q) { case 1: z = sh ? is_row_reduced(a, s) : is_row_reduced(a); break; case 2: z = sh ? is_row_weak_popov(a, s) : is_row_weak_popov(a); break; case 3: z = sh ? is_row_ordered_weak_popov(a, s) : is_row_ordered_weak_popov(a); break; default: z = sh ? is_row_popov(a, s) : is_row_popov(a); }
    else switch (q) { case 1: z = sh ? is_col_reduced(a, s) : is_col_reduced(a); break; case 2: z = sh ? is_col_weak_popov(a, s) : is_col_weak_popov(a); break; case 3: z = sh ? is_col_ordered_weak_popov(a, s) : is_col_ordered_weak_popov(a); break; default: z = sh ? is_col_popov(a, s) : is_col_popov(a); }
    OUT(z) } }
}
static long ncases(bool deep) { return deep ? 150000 : 12000; }
Suite THE_SUITE = {"C04", run, ncases};
