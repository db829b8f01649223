from common import *
S1='structured_lzz_p/src/'; SX='structured_lzz_pX/src/'
PRE2=PRE.replace('NTL_CLIENT','''#include "lzz_p_extra.h"
#include "lzz_pX_extra.h"
#include "lzz_pX_CRT.h"
#include "lzz_pX_middle_product.h"
#include "lzz_pXY.h"
#include "lzz_pX_seq.h"
#include "structured_lzz_p.h"
#include "structured_lzz_pX.h"
#include "magma_output.h"
#include "mat_lzz_pX_sequence.h"
#include <sstream>
NTL_CLIENT''',1)

main('C08-degk','C08',[('lzz_pX_extra/src/lzz_pX_extra.cpp','''        if (deg(b) >= k)
        {
            TofftRep(R2, b, t, k, l);  ''','''        if (deg(b) > k)
        {
            TofftRep(R2, b, t, k, l);  '''),('lzz_pX_extra/src/lzz_pX_extra.cpp','''        if (deg(b) >= k)
            for (long i = k; i <= l; ++i) ''','''        if (deg(b) > k)
            for (long i = k; i <= l; ++i) ''')],PRE2+'''
int main() {
  zz_p::FFTInit(0); SetSeed(ZZ(1));
  for (long m = 100; m <= 600; m += 50) for (long db = 0; db < m; db++) {
    zz_pX a = random_zz_pX(m), b = random_zz_pX(db), x; if (coeff(a, 0) == 0) SetCoeff(a, 0, 1); SetCoeff(b, db, 1);
    InvTruncMul(x, b, a, m); CHECK(MulTrunc(x, a, m) == trunc(b, m)); if (bad) return bad;
  }
  return bad; }
''','a series division whose numerator has degree exactly the half precision of the last Newton step (a power of two)','the top coefficient of the numerator is dropped: the quotient is wrong from that degree on')

main('C14-single','C14',[('lzz_pX_CRT/src/lzz_pX_CRT.cpp','val[0] = f % tree[d-1][0];','val[0] = f;')],PRE2+'''
int main() {
  zz_p::init(97); SetSeed(ZZ(1));
  for (long n = 1; n < 6; n++) { Vec<zz_pX> q; for (long i = 0; i < n; i++) { zz_pX f; SetCoeff(f, 2, 1); SetCoeff(f, 1, 1); SetCoeff(f, 0, i + 7); q.append(f); }
    zz_pX_CRT crt(q); Vec<zz_pX> v; zz_pX f = random_zz_pX(40); crt.multimod(v, f);
    for (long i = 0; i < n; i++) CHECK(v[i] == f % q[i]); }
  return bad; }
''','a CRT object with exactly one modulus, and a polynomial not reduced modulo it','the remainder returned is not reduced')

main('C11-equaldeg','C11',[(M+'mat_lzz_pX_division.cpp','    if (d < 0)\n','    if (d <= 0)\n')],PRE2+'''
int main() {
  zz_p::init(97); SetSeed(ZZ(1));
  PM A = rnd(2, 2, 4), B = rnd(2, 2, 3), Q, R; for (long i = 0; i < 2; i++) SetCoeff(B[i][i], 3, 1);
  quo_rem(Q, R, A, B); PM P = ref_mul(B, Q); for (long i = 0; i < 2; i++) for (long j = 0; j < 2; j++) { CHECK(P[i][j] + R[i][j] == A[i][j]); CHECK(deg(R[i][j]) < 3); }
  return bad; }
''','a dividend whose row degrees reach but do not exceed those of the divisor (constant quotient)','the remainder is not reduced: the division returns quotient 0')

main('C23-root','C23',[('lzz_pX_extra/src/lzz_pX_extra.cpp','''    for (long i = w.rep.length(); i <= d; ++i)
        clear(g[d-i]);
''','')],PRE2+'''
int main() {
  zz_p::init(10007); SetSeed(ZZ(1));
  for (long d = 1; d < 40; d++) { zz_p c = to_zz_p(5); zz_pX_shift_large_characteristic s(d, c);
    zz_pX r, f = random_zz_pX(d); SetCoeff(r, 1, 1); SetCoeff(r, 0, -c); f *= r; SetCoeff(f, 0, coeff(f, 0));
    zz_pX g = random_zz_pX(d + 1); s.shift(g, f); CHECK(IsZero(coeff(g, 0)));
    zz_pX h, y, p; set(p); SetCoeff(y, 1, 1); SetCoeff(y, 0, c); for (long i = 0; i <= deg(f); i++) { h += coeff(f, i) * p; p *= y; } CHECK(g == h); }
  return bad; }
''','shifting to a root of the polynomial with an output that already holds a value (or is the input)','stale low coefficients remain in the shifted polynomial')

main('C18-lcvanish','C18',[('lzz_pXY/src/lzz_pXY.cpp','''        evG.evaluate(val_lcg, g.rep[dyg], dr);
        for (long i = 0; i < dr; i++)
            if (val_lcf[i] == 0 || val_lcg[i] == 0)''','''        evG.evaluate(val_lcg, g.rep[dyg], dr);
        for (long i = 0; i < dr; i++)
            if (val_lcf[i] == 0 && val_lcg[i] == 0)''')],PRE2+'''
int main() {
  zz_p::init(499); SetSeed(ZZ(1));
  for (long it = 0; it < 200; it++) {                      // Res(l y + u, m y + v) = l v - m u
    zz_pX l; set(l); for (long i = 0; i < 12; i++) { zz_pX r; SetCoeff(r, 1, 1); SetCoeff(r, 0, random_zz_p()); l *= r; }
    zz_pX u = random_zz_pX(12), m = random_zz_pX(5), v = random_zz_pX(5), w = random_zz_pX(5); if (IsZero(m)) set(m); if (IsZero(w)) set(w);
    zz_pXY f, g; f.rep.append(u); f.rep.append(l); g.rep.append(v); g.rep.append(m); g.rep.append(w);
    zz_pX e = u * u * w - u * l * m + l * l * v, r;            // resultant of a linear and a quadratic polynomial
    if (resultant(r, f, g)) CHECK(r == e || r == -e);
    if (bad) break; }
  return bad; }
''','a small field and a leading coefficient (in y) of one operand with a root among the evaluation points','the resultant returned as successful is wrong')

main('C22-cache','C22',[('lzz_pX_CRT/src/lzz_pX_Multipoint_Geometric.cpp','''    zz_p r;
    element_of_order(r, 2*n);
    return zz_pX_Multipoint_Geometric(r, n);''','''    // finding the ratio is costly: remember it
    static std::map<long, long> ratios;
    zz_p r;
    std::map<long, long>::const_iterator it = ratios.find(n);
    if (it != ratios.end())
        r = to_zz_p(it->second);
    if (r == 0)
    {
        element_of_order(r, 2*n);
        ratios[n] = rep(r);
    }
    return zz_pX_Multipoint_Geometric(r, n);''')],PRE2+'''
int main() {
  long ps[] = {10007, 97, 211, 101, 199, 113, 193, 127}; SetSeed(ZZ(1));
  for (long it = 0; it < 10; it++) for (long p : ps) { zz_p::init(p); long n = 24; zz_pX_Multipoint_Geometric ev = get_geometric_points(n);
    zz_pX f = random_zz_pX(n); Vec<zz_p> v; ev.evaluate(v, f); zz_p x;
    for (long i = 0; i < n; i++) { ev.get_point(x, i); CHECK(v[i] == eval(f, x)); for (long j = 0; j < i; j++) { zz_p y; ev.get_point(y, j); CHECK(x != y); } } if (bad) return bad; }
  return bad; }
''','a previous request for the same number of points under another modulus','the ratio found under the earlier modulus is reused: it need not have the required order, so points repeat or the construction aborts')

main('C09-numdeg','C09',[(M+'mat_lzz_pX_linsolve.cpp','''    const long deg_den = n*dA; // expected denominator degree, deg_den + 1 = number of unknowns
    const long deg_num = deg_den-dA + dB; // expected numerator degree

    const long first = max(deg_num + 1, deg_den); // first term we can use in each block
    const long sz''','''    const long deg_den = n*dA; // expected denominator degree, deg_den + 1 = number of unknowns
    const long deg_num = deg_den-dA + min(dA, dB); // expected numerator degree

    const long first = max(deg_num + 1, deg_den); // first term we can use in each block
    const long sz''')],PRE2+'''
int main() {
  zz_p::init(1125899906842597); SetSeed(ZZ(1));
  for (long dB = 0; dB < 9; dB++) { PM A = rnd(3, 3, 3); Vec<zz_pX> b, u; for (long i = 0; i < 3; i++) b.append(random_zz_pX(dB + 1)); zz_pX den;
    linsolve_via_series(u, den, A, b); CHECK(!IsZero(den));
    for (long i = 0; i < 3; i++) { zz_pX s; for (long j = 0; j < 3; j++) s += A[i][j] * u[j]; CHECK(s == den * b[i]); } }
  return bad; }
''','a right-hand side of degree larger than the degree of the matrix','the series is computed to too low a precision and the returned solution does not satisfy the system')

main('C10-samepoint','C10',[(M+'mat_lzz_pX_determinant.cpp','''        pt = random_zz_p();
        zz_p det_pt2''','''        zz_p det_pt2''')],PRE2+'''
int main() {
  zz_p::init(1125899906842597); SetSeed(ZZ(1));
  PM A = rnd(2, 2, 4); zz_pX d = A[0][0] * A[1][1] - A[0][1] * A[1][0];
  for (long it = 0; it < 20; it++) { CHECK(verify_determinant(d * random_zz_p(), A, true, true)); CHECK(!verify_determinant(d + 1, A, true, true)); CHECK(!verify_determinant(random_zz_pX(9), A, true, true)); }
  return bad; }
''','verification up to a constant factor of a candidate that is not proportional to the determinant','every candidate is accepted')

main('C21-rank','C21',[(M+'mat_lzz_pX_interpolant.cpp','''    for (long pt = 0; pt < order; ++pt)
    {
        Mat<zz_p> evals_pt(evals[pt]);
        long rank = gauss(evals_pt);
''','''    for (long pt = 0; pt < order; ++pt)
    {
        long rank = std::min(evals[pt].NumRows(), evals[pt].NumCols());
''')],PRE2+'''
int main() {
  zz_p::init(10007); SetSeed(ZZ(1));
  for (long it = 0; it < 10; it++) { long n = 5; PM F; F.SetDims(3, 2); for (long i = 0; i < 3; i++) { F[i][0] = random_zz_pX(4); F[i][1] = it % 2 ? 2 * F[i][0] : random_zz_pX(4); }
    zz_p r; element_of_order(r, 2 * n); VecLong s = {0, 1, 0}, t(s); Vec<zz_p> pts; PM b; pmbasis_geometric(b, F, r, n, t, pts);
    Vec<Mat<zz_p>> ev; for (long k = 0; k < n; k++) ev.append(eval(F, pts[k]));
    CHECK(is_interpolant_basis_geometric(b, ev, r, n, s, ORD_WEAK_POPOV, false)); }
  return bad; }
''','an input whose evaluation at some point does not have full rank','a correct interpolant basis is rejected (and a non-generating one accepted) by the geometric checker')

main('C04-colpivot','C04',[(M+'mat_lzz_pX_forms.cpp','''            if (d >= shift[i]) // pmat[i][j] nonzero
            {
                if (d > pivdeg[j])
                {
                    pivdeg[j] = d;
                    pivind[j] = i;
                }
                else if (d == pivdeg[j])
                    pivind[j] = i;
            }
        }
        // remove the shift so that pivdeg is not cdeg but pivdeg''','''            if (d > pivdeg[j])
            {
                pivdeg[j] = d;
                pivind[j] = i;
            }
            else if (d == pivdeg[j])
                pivind[j] = i;
        }
        // remove the shift so that pivdeg is not cdeg but pivdeg''')],PRE2+'''
int main() {
  zz_p::init(97); PM a; a.SetDims(3, 2); SetCoeff(a[0][0], 1, 1); SetCoeff(a[0][1], 2, 1); SetCoeff(a[1][1], 0, 1);
  VecLong pi, pd, s = {0, 3, 9}; col_pivots(pi, pd, a, s);
  CHECK(pi[0] == 0 && pd[0] == 1); CHECK(pi[1] == 1 && pd[1] == 0);
  return bad; }
''','a column with a zero entry in a row of large shift, larger than the shifted degree of the nonzero entries','a zero entry is reported as the pivot')

main('C16-overdetermined','C16',[(S1+'cauchy_like_geometric_lzz_p.cpp','''    if (mul_right(x) != b)
    {
        x.SetLength(0);''','''    if (rk < m && mul_right(x) != b)
    {
        x.SetLength(0);''')],PRE2+'''
int main() {
  zz_p::init(1125899906842597); SetSeed(ZZ(1));
  for (long it = 0; it < 10; it++) { long m = 6 + it, n = 3 + it / 2; zz_p a = to_zz_p(2), b = to_zz_p(1234567), r = to_zz_p(3);
    Mat<zz_p> U, V; U.SetDims(m, 2); V.SetDims(n, 2); for (long j = 0; j < 2; j++) { for (long i = 0; i < m; i++) U[i][j] = random_zz_p(); for (long i = 0; i < n; i++) V[i][j] = random_zz_p(); }
    cauchy_like_geometric_lzz_p C(U, V, a, b, r); Mat<zz_p> M; C.to_dense(M);
    Vec<zz_p> rhs = random_vec_zz_p(m), x; long ok = C.solve_grp(x, rhs); if (ok && x.length()) CHECK(M * x == rhs);
    rhs = M * random_vec_zz_p(n); ok = C.solve_grp(x, rhs); if (ok) CHECK(x.length() == n && M * x == rhs); }
  return bad; }
''','a system with more rows than columns, of full column rank, and without solution','a vector that does not solve the system is returned as a solution')

main('C17-sylv','C17',[(SX+'sylvester_lzz_pX.cpp','''    if ((dAx + dFx) == (dBx + dGx))
    {
        zz_pX kro_res;
        kro_res = kro_A * kro_F + kro_B * kro_G;
        from_kronecker(out, kro_res, dAx + dFx);
        long ell''','''    if (dAx == dBx)
    {
        zz_pX kro_res;
        kro_res = kro_A * kro_F + kro_B * kro_G;
        from_kronecker(out, kro_res, dAx + dFx);
        long ell''')],PRE2+'''
int main() {
  zz_p::init(10007); SetSeed(ZZ(1));
  for (long it = 0; it < 40; it++) { long da = 1 + it % 3, db = 1 + it % 4; Vec<zz_pX> a, b; for (long i = 0; i <= da; i++) a.append(random_zz_pX(3)); for (long i = 0; i <= db; i++) b.append(random_zz_pX(3));
    sylvester_lzz_pX s(a, b); PM M; s.to_dense(M); Vec<zz_pX> v, o; for (long i = 0; i < M.NumCols(); i++) v.append(random_zz_pX(1 + (i < db ? it % 2 : it % 5)));
    s.mul_right(o, v); for (long i = 0; i < M.NumRows(); i++) { zz_pX t; for (long j = 0; j < M.NumCols(); j++) t += M[i][j] * v[j]; CHECK(o[i] == t); } }
  return bad; }
''','operands of equal x-degree and a vector whose two halves have different degrees','the two Kronecker products are combined although they use different evaluation points: the product is wrong')

main('C19-modK','C19',[('lzz_pX_seq/src/lzz_pX_seq.cpp','	    tprime = valuation(r) - valuation(l);','	    tprime = d - valuation(l);')],PRE2+'''
static long lt(const zz_pXY& f) { if (f.rep.length() == 0) return -1; const zz_pX& c = f.rep[f.rep.length() - 1]; for (long i = 0; i <= deg(c); i++) if (coeff(c, i) != 0) return i; return -1; }
int main() {
  zz_p::init(5); SetSeed(ZZ(1));
  for (long it = 0; it < 3000; it++) { long d = 2 + it % 4, L = 3 + it % 7; Vec<zz_pX> S; for (long i = 0; i < L; i++) S.append(LeftShift(random_zz_pX(d), RandomBnd(d)) % LeftShift(zz_pX(1), d));
    Vec<zz_pXY> g, h; kurakin(d, S, g); modified_kurakin(d, S, h);
    for (long t = 0; t < d && t < g.length(); t++) { long j = g[t].rep.length() - 1, best = L; for (long i = 0; i < h.length(); i++) { h[i].normalize(); long v = lt(h[i]); if (v >= 0 && v <= t) best = min(best, (long)h[i].rep.length() - 1); }
      if (j < L - 1) CHECK(best <= j); if (bad) return bad; } }
  return bad; }
''','a sequence for which the modified algorithm must open a new power of x because of a valuation larger than that of the stored remainder','a generator of least degree is missed for some power of x')

main('C02-uselong','C02',[('lzz_pX_middle_product/src/lzz_pX_middle_product.cpp','''        long p = zz_p::modulus();
        long use_long = (p < NTL_SP_BOUND/KARX && p*KARX < NTL_SP_BOUND/p);
        tPlainMul2(bp''','''        long p = zz_p::modulus();
        long use_long = (p < NTL_SP_BOUND/p);
        tPlainMul2(bp''')],PRE2+'''
int main() {
  zz_p::init(1073741789); SetSeed(ZZ(1));
  for (long dA = 0; dA < 20; dA++) for (long dB = 0; dB < 20; dB++) { zz_pX a, c, b; for (long i = 0; i <= dA; i++) SetCoeff(a, i, -1 - i); for (long i = 0; i <= dA + dB; i++) SetCoeff(c, i, -1 - 2 * i);
    middle_product(b, a, c, dA, dB); CHECK(b == trunc(RightShift(a * c, dA), dB + 1)); }
  return bad; }
''','a prime between 2^28 and 2^30 and at least eight terms of large coefficients: the sum of products overflows before its reduction','wrong coefficients in short middle products')

main('C24-bigint','C24',[('magma_output/src/magma_output.cpp','''void magma_output(const ZZX & v, const string & var)
{
    cout << "(Parent(" << var << ")!(0)";
    for (long i = 0; i <= deg(v); i++)
    {
        cout << "+(" << coeff(v, i) <<''','''void magma_output(const ZZX & v, const string & var)
{
    cout << "(Parent(" << var << ")!(0)";
    for (long i = 0; i <= deg(v); i++)
    {
        cout << "+(" << to_long(coeff(v, i)) <<''')],PRE2+'''
int main() {
  ZZX f; SetCoeff(f, 2, power(ZZ(7), 60)); SetCoeff(f, 0, -1); std::stringstream o, w; std::streambuf* old = std::cout.rdbuf(o.rdbuf()); magma_output(f, "y"); std::cout.rdbuf(old);
  w << power(ZZ(7), 60); CHECK(o.str().find(w.str()) != std::string::npos); return bad; }
''','an integer coefficient that does not fit in a long','the text denotes another polynomial')

main('C03-revneg','C03',[(M+'mat_lzz_pX_utils.cpp','''            reverse(x[r][s], a[r][s], hi[r]);''','''            if (hi[r] >= 0)
                reverse(x[r][s], a[r][s], hi[r]);''')],PRE2+'''
int main() {
  zz_p::init(97); SetSeed(ZZ(1)); PM a = rnd(3, 2, 4), x = rnd(3, 2, 4); VecLong hi = {3, -1, 2}; row_reverse(x, a, hi);
  for (long j = 0; j < 2; j++) { CHECK(IsZero(x[1][j])); for (long k = 0; k < 4; k++) CHECK(coeff(x[0][j], k) == coeff(a[0][j], 3 - k)); }
  row_reverse(a, a, hi); CHECK(IsZero(a[1][0])); return bad; }
''','a row whose bound is -1 (the degree of a zero row) and an output that already holds values, or is the input','that row keeps its previous contents instead of being zero')

