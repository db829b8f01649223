from common import *
S1='structured_lzz_p/src/'; SX='structured_lzz_pX/src/'
PRE2=PRE.replace('NTL_CLIENT','''#include "lzz_p_extra.h"
#include "lzz_pX_extra.h"
#include "lzz_pX_CRT.h"
#include "lzz_pX_middle_product.h"
#include "lzz_pXY.h"
#include "lzz_pX_seq.h"
#include "structured_lzz_p.h"
#include "structured_lzz_pX.h"
#include "magma_output.h"
#include "mat_lzz_pX_sequence.h"
#include <sstream>
NTL_CLIENT''',1)

main('C12-stale','C12',[(M+'mat_lzz_pX_linearization.cpp','''            c[i][j].SetLength(std::max<long>(0, deg_a + target_degree[j] - d_inf + 1));
            clear(c[i][j].rep);
''','''            c[i][j].SetLength(std::max<long>(0, deg_a + target_degree[j] - d_inf + 1));
''')],PRE2+'''
int main() {
  zz_p::init(97); SetSeed(ZZ(1));
  PM a = rnd(3, 3, 6), b = rnd(3, 2, 12), p = ref_mul(a, b), c;
  VecLong td(2, 11);
  for (long t = 0; t < 3; t++) {
    right_parlin_middle_product(c, a, b, 3, td, 5, 6);
    for (long i = 0; i < 3; i++) for (long j = 0; j < 2; j++) CHECK(c[i][j] == trunc(p[i][j] >> 5, 7));
    if (t == 1) c = rnd(3, 2, 30);
  }
  return bad; }
''','an output matrix of the right dimensions that already holds values','old coefficients are added to the middle product')

main('C05-2x1trunc','C05',[(M+'mat_lzz_pX_pmbasis.cpp','tmp[1][0] = trunc(f1,order);','tmp[1][0] = f1;')],PRE2+'''
int main() {
  zz_p::FFTInit(0); SetSeed(ZZ(1));
  for (long order = 33; order < 120; order += 7) for (long len = order - 5; len < 4*order; len += 21) {
    zz_pX f0 = random_zz_pX(len), f1 = random_zz_pX(len), p00, p01, p10, p11; long s0 = 0, s1 = 0;
    pmbasis_2x1(p00, p01, p10, p11, f0, f1, order, s0, s1, 32);
    CHECK(IsZero(trunc(p00*f0 + p01*f1, order))); CHECK(IsZero(trunc(p10*f0 + p11*f1, order))); }
  return bad; }
''','a second polynomial whose degree exceeds the order, above the recursion threshold','the residual wraps around: rows that are not approximants')

main('C16-tail','C16',[(S1+'cauchy_like_geometric_lzz_p.cpp','''        for (long i = 0; i < m-r; i++)
            if (check[i] != 0)
                return -1;''','''        for (long i = 0; i < N-r; i++)
            if (check[i] != 0)
                return -1;''')],PRE2+'''
int main() {
  zz_p::FFTInit(0); SetSeed(ZZ(1)); long m = 230, n = 205, al = 2; zz_p rho; element_of_order(rho, 2*(m + n));
  // rows below the 205th have other generators: rank 2 on top would be revealed only there
  Mat<zz_p> G, H; G.SetDims(m, al); H.SetDims(n, al);
  for (long i = 0; i < n; i++) { H[i][0] = 0; H[i][1] = random_zz_p(); }
  for (long i = 0; i < m; i++) { G[i][0] = random_zz_p(); G[i][1] = i < n ? to_zz_p(0) : random_zz_p(); }
  cauchy_like_geometric_lzz_p C(G, H, to_zz_p(3), random_zz_p(), rho), I;
  CHECK(C.invert_leading_principal_minor_grp(I) == 0);   // zero on top, nonzero below: not generic rank profile
  return bad; }
''','a tall matrix of at least 200 columns, whose rank deficiency is found in the first half and whose remaining part is nonzero only below its top square','generic rank profile is reported although it does not hold')

main('C07-merge','C07',[(M+'mat_lzz_pX_kernel.cpp','''    while (i_approx < approx.NumRows())
    {
        // row computed via recursive calls and stored in `approx`
        kerbas[i].swap(approx[i_approx]);
        shift[i] = rdeg2[i_approx]+diff_shift;''','''    while (i_approx < approx.NumRows())
    {
        // row computed via recursive calls and stored in `approx`
        kerbas[i].swap(approx[i_approx]);
        shift[i] = rdeg2[i_approx];''')],PRE2+'''
int main() {
  zz_p::init(97); SetSeed(ZZ(1));
  for (long t = 0; t < 3000; t++) {
    long m = 4 + t % 3, n = 2; PM F = rnd(m, n, 3); 
    for (long i = 0; i < m; i++) { if (RandomBnd(3) == 0) F[i][0] = F[i][1] = 0; if (RandomBnd(3) == 0) F[i][1] = 0; F[i][0] <<= RandomBnd(4); }
    VecLong s(m), s0; for (long i = 0; i < m; i++) s[i] = 5 + RandomBnd(12); s0 = s; PM K, G = F;
    VecLong sh(s); kernel_basis_zls_via_approximation(K, G, sh);
    VecLong rd; row_degree(rd, K, s0); CHECK((long)sh.size() == K.NumRows() && rd == sh); if (bad) return bad; }
  return bad; }
''','a matrix for which the recursive calls of the algorithm find kernel rows missed by the first approximant basis, the last of which ends the basis, with a shift that is not tight','the announced shifted degrees of these rows are off by a constant')

main('C01-lmul3','C01',[(M+'mat_lzz_pX_lmultiplier.cpp','primes(a.NumCols(), deg(a), dB)','primes(a.NumRows(), deg(a), dB)')],PRE2+'''
int main() {
  SetSeed(ZZ(1)); 
  for (long bits = 20; bits <= 29; bits++) { zz_p::init(GenPrime_long(bits));
    for (long n = 1; n <= 64; n *= 4) for (long d = 3; d < 60; d = 2*d + 1) {
      PM a, b; a.SetDims(1, n); b.SetDims(n, 1);
      for (long k = 0; k < n; k++) for (long i = 0; i <= d; i++) { SetCoeff(a[0][k], i, -1); SetCoeff(b[k][0], i, -1); }
      mat_lzz_pX_lmultiplier_3_primes L(a, d); PM c; L.multiply(c, b); CHECK(eq(c, ref_mul(a, b))); } }
  return bad; }
''','a prepared left operand with more columns than rows and coefficient sums between the two bounds','too few FFT primes are used: the products wrap')

main('C10-fftpts','C10',[(M+'mat_lzz_pX_determinant.cpp','NextPowerOfTwo(pmat.NumRows() * d + 1);','NextPowerOfTwo(max(1, pmat.NumRows() * d));')],PRE2+'''
int main() {
  zz_p::FFTInit(0); SetSeed(ZZ(1));
  for (long n = 1; n <= 4; n++) for (long d = 0; d < 9; d++) { PM a = rnd(n, n, d + 1); zz_pX x, y; 
    determinant_expansion_by_minors(y, a); determinant_via_evaluation_FFT(x, a); CHECK(x == y); }
  return bad; }
''','dimension times degree a power of two, with a determinant of full degree','the leading coefficient is folded onto the constant one')

main('C06-popovcopy','C06',[(M+'mat_lzz_pX_interpolant.cpp','''    zz_pX_Multipoint_General eval(pts);
    Vec<Mat<zz_p>> evals;
    eval.evaluate_matrix(evals, pmat);

    // compute first basis, after saving the evaluations and the shift
    Vec<Mat<zz_p>> copy_evals(evals);
    VecLong rdeg(shift);
    pmbasis(intbas,copy_evals,pts,rdeg,0,pts.length());''','''    zz_pX_Multipoint_General eval(pts);
    Vec<Mat<zz_p>> evals;
    eval.evaluate_matrix(evals, pmat);

    // compute first basis, after saving the evaluations and the shift
    Vec<Mat<zz_p>> copy_evals(evals);
    VecLong rdeg(shift);
    pmbasis(intbas,evals,pts,rdeg,0,pts.length());''')],PRE2+'''
int main() {
  zz_p::init(9001); SetSeed(ZZ(1));
  for (long n : {10, 33, 40, 70}) { PM F = rnd(4, 2, n), P; VecLong s = {0, 3, 1, 0}; Vec<zz_p> pts; pts.SetLength(n); for (long i = 0; i < n; i++) pts[i] = i + 1;
    popov_pmbasis(P, F, pts, s); PM R = ref_mul(P, F);
    for (long i = 0; i < 4; i++) for (long j = 0; j < 2; j++) for (long k = 0; k < n; k++) CHECK(IsZero(eval(R[i][j], pts[k]))); }
  return bad; }
''','the Popov variant with more than 32 points, where the recursion updates the evaluations in place','the second pass works on evaluations already multiplied by the first basis')

main('C15-hoist','C15',[(S1+'toeplitz_lzz_p.cpp','''        for (long i = 0; i < p; i++)
        {
            input_X.rep.SetLength(n);
            zz_p *cf = input_X.rep.elts();
            for (long j = 0; j < n; j++)''','''        input_X.rep.SetLength(n);
        zz_p *cf = input_X.rep.elts();
        for (long i = 0; i < p; i++)
        {
            for (long j = 0; j < n; j++)''')],PRE2+'''
int main() {
  zz_p::FFTInit(0); SetSeed(ZZ(1));
  for (long n : {120, 250, 400}) { Vec<zz_p> v = random_vec_zz_p(2*n - 1); toeplitz_lzz_p T(v, n, n); Mat<zz_p> A, B, D; random(A, 5, n);
    for (long j = n - 4; j < n; j++) A[1][j] = 0;
    T.mul_left(B, A); T.to_dense(D); CHECK(B == A * D); }
  return bad; }
''','left product with few rows by the FFT path, where a row ends with zeros','the rows after it lose their last entries')

main('C08-degb','C08',[('lzz_pX_extra/src/lzz_pX_extra.cpp','if (deg(a) < k && deg(b) < k && l == m)','if (deg(a) < k && deg(b) <= k && l == m)')],PRE2+'''
int main() {
  zz_p::FFTInit(0); SetSeed(ZZ(1));
  for (long m = 100; m <= 600; m += 50) for (long db = 0; db < m; db++) {
    zz_pX a = random_zz_pX(20), b = random_zz_pX(db), x; if (coeff(a, 0) == 0) SetCoeff(a, 0, 1); SetCoeff(b, db, 1); SetCoeff(a, 19, 1);
    InvTruncMul(x, b, a, m); CHECK(MulTrunc(x, a, m) == trunc(b, m)); if (bad) return bad;
  }
  return bad; }
''','a denominator of small degree and a numerator of degree exactly the precision reached before the last Newton step','one coefficient of the quotient is wrong')
