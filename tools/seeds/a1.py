from common import *
main('C01-primes-count','C01',[(M+'mat_lzz_pX_multiply_3_primes.cpp',
 "ZZ max_coeff = ZZ(ncols) * ZZ(min(dA + 1, dB + 1)) * ZZ(p - 1) * ZZ(p - 1);",
 "ZZ max_coeff = ZZ(ncols) * ZZ(max(1L, min(dA, dB))) * ZZ(p - 1) * ZZ(p - 1);")],
 PRE+'''
int main() {
  // one entry, degree 1 operands with maximal coefficients: coefficient 1 of the product is 2*(p-1)^2 over Z
  long q; { zz_p::FFTInit(0); q = zz_p::modulus(); }
  ZZ t = SqrRoot(ZZ(q)); long p = to_long(t);
  while (!ProbPrime(p) || 2.0 * (p - 1) * (p - 1) < 1.5 * q) p--;
  zz_p::init(p);
  PM a, b, c; a.SetDims(1, 1); b.SetDims(1, 1);
  SetCoeff(a[0][0], 0, -1); SetCoeff(a[0][0], 1, -1); b = a;
  multiply_3_primes(c, a, b); CHECK(eq(c, ref_mul(a, b)));
  return bad;
}
''','multiply_3_primes (or the multiplier built on it) with a prime near the boundary where the exact coefficient bound does not fit in one (or two) FFT primes but the bound with one term less does, and extreme coefficients',
 'the multi-modular product uses too few primes and returns wrong coefficients')
main('C05-pivot-collision','C05',[(M+'mat_lzz_pX_pmbasis.cpp',
'''        VecLong duplicate(p_pivind);
        std::sort(duplicate.begin(), duplicate.end());
        // if it has, then fine, the basis will not be Popov''',
'''        const VecLong & duplicate = p_pivind;
        // if it has, then fine, the basis will not be Popov''')],
 PRE+'''
int main() {
  // many rank-deficient constant residuals over a small field: some kernels have non adjacent colliding pivots
  zz_p::init(2); SetSeed(ZZ(3));
  for (long it = 0; it < 20000; it++) {
    long m = 3 + RandomBnd(6), n = 1 + RandomBnd(m - 1);
    Mat<zz_p> f; f.SetDims(m, n); for (long i = 0; i < m; i++) for (long j = 0; j < n; j++) f[i][j] = random_zz_p();
    VecLong s(m); for (long i = 0; i < m; i++) s[i] = RandomBnd(3);
    Mat<zz_p> k, g(f); VecLong d = mbasis1(k, f, s);
    long r = gauss(g), z = 0; for (long x : d) z += (x == 0);
    CHECK(z == m - r && k.NumRows() == m - r);
    if (bad) break;
    PM ab; VecLong t(s); mbasis(ab, conv<Mat<zz_pX>>(f), 1, t); CHECK(is_row_ordered_weak_popov(ab, s));
    if (bad) break;
  }
  return bad;
}
''','a residual whose constant kernel, as returned by NTL, has two rows with the same pivot that are not next to each other',
 'mbasis1 (and hence mbasis/pmbasis) returns too few degree-0 rows: the basis is not minimal / not ordered weak Popov')
main('C06-eval-points','C06',[(M+'mat_lzz_pX_interpolant.cpp',
"zz_pX_Multipoint_Geometric ev(r, pts[offset2], order2+1);","zz_pX_Multipoint_Geometric ev(r, pts[offset2], order2);")],
 PRE+'''
int main() {
  zz_p::init(1125899906842597); SetSeed(ZZ(5));
  long order = 40; zz_p r; element_of_order(r, 2 * order + 4);
  PM f; f.SetDims(2, 1); f[0][0] = random_zz_pX(order); f[1][0] = random_zz_pX(order);
  VecLong s = {0, 1000}; Vec<zz_p> pts; PM b; VecLong t(s);
  pmbasis_geometric(b, f, r, order, t, pts);
  PM e = ref_mul(b, f);
  for (long k = 0; k < order; k++) for (long i = 0; i < 2; i++) CHECK(IsZero(eval(e[i][0], pts[k])));
  CHECK(deg(b[0][0]) + deg(b[1][1]) == order);
  return bad;
}
''','geometric interpolation with more than 32 points (even number) and a shift unbalanced enough that the first half basis reaches degree equal to the number of remaining points',
 'rows of the returned basis do not vanish at the second half of the points')
main('C07-amplitude','C07',[(M+'mat_lzz_pX_kernel.cpp',
'''    // compute amplitude of the shift
    const long amp = amplitude(shift);

    // compute the order for approximation:
    const long order = (n+1)*d + amp + 1;

    // define geometric points''',
'''    // compute amplitude of the shift
    const long amp = std::abs(shift.back() - shift.front());

    // compute the order for approximation:
    const long order = (n+1)*d + amp + 1;

    // define geometric points''')],
 PRE+'''
int main() {
  zz_p::init(1125899906842597); SetSeed(ZZ(7));
  for (long it = 0; it < 20; it++) {
    PM f = rnd(4, 2, 4), k; VecLong s = {0, 30, 15, 0}, piv, t(s);
    kernel_basis_via_interpolation(k, piv, f, t);
    CHECK(k.NumRows() == 2); CHECK(zero(ref_mul(k, f))); CHECK(is_row_ordered_weak_popov(k, s));
  }
  return bad;
}
''','interpolation-based kernel with a shift whose extreme values are not at its two ends',
 'the interpolation order is too small: kernel rows are missed or non-kernel rows are returned')
main('C12-normalise','C12',[(M+'mat_lzz_pX_linearization.cpp',
'''            long d = d_inf;
            long jj = parlin_cols[j];
            for (; jj<parlin_cols[j+1]-1; ++jj)
            {
                parlin[i][jj].SetLength(parlin_degree[j]+1);
                for (long dd=0; dd<=parlin_degree[j]; ++dd)
                    parlin[i][jj][dd] = coeff(pmat[i][j], d++);
                parlin[i][jj].normalize();
            }''',
'''            long d = d_inf;
            long jj = parlin_cols[j];
            for (; jj<parlin_cols[j+1]-1; ++jj)
            {
                parlin[i][jj].SetLength(parlin_degree[j]+1);
                for (long dd=0; dd<=parlin_degree[j]; ++dd)
                    parlin[i][jj][dd] = coeff(pmat[i][j], d++);
            }''')],
 PRE+'''
int main() {
  zz_p::init(101);
  PM a, p; a.SetDims(1, 1); SetCoeff(a[0][0], 1, 3); SetCoeff(a[0][0], 2, 1); SetCoeff(a[0][0], 9, 1);   // zero coefficient at the end of a block
  VecLong cols = column_partial_linearization(p, a, VecLong(1, 3), VecLong(1, 9), 1);
  zz_pX s; for (long j = cols[0]; j < cols[1]; j++) { CHECK(p[0][j].rep.length() == 0 || !IsZero(p[0][j].rep[p[0][j].rep.length()-1])); s += p[0][j] << (4 * j); }
  CHECK(s == (a[0][0] >> 1));
  return bad;
}
''','the low-degree-dropping partial linearisation on an entry with a zero coefficient at the top of an intermediate block',
 'returned entries are not normalised (degree and equality are wrong)')
