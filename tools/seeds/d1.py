from common import *
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'c1.py')).read().split("main('C12-stale'")[0])

main('C20-terms','C20',[(M+'mat_lzz_pX_sequence.cpp','matrix_pade_generic(basis,pmat,seq.length());','matrix_pade_generic(basis,pmat,2*((seq.length()-1)/2));')],PRE2+'''
int main() {
  zz_p::FFTInit(0); SetSeed(ZZ(1));
  for (long m = 2; m < 4; m++) for (long d = 2; d < 5; d++) {
    PM d0 = rnd(m, m, d), n0 = rnd(m, m, d), inv, ser, b; for (long i = 0; i < m; i++) SetCoeff(d0[i][i], d, 1);
    long len = 2*d; inv_trunc(inv, d0, len); ser = ref_mul(inv, n0);
    Vec<Mat<zz_p>> seq; seq.SetLength(len); for (long i = 0; i < len; i++) seq[i] = coeff(ser, i);
    matrix_recon_approximation(b, seq);
    PM r = ref_mul(b, ser); for (long i = 0; i < m; i++) for (long j = 0; j < m; j++) CHECK(deg(trunc(r[i][j], len)) < d); }
  return bad; }
''','a sequence of even length, with no term to spare','the last term is ignored: the fraction does not reproduce the sequence')

main('C13-offset','C13',[('lzz_pX_CRT/src/lzz_pX_Multipoint_General.cpp','''        pts[i] = q[offset+i];

    Vec<zz_pX> qpol;
    qpol.SetLength(n);
    for (long i = 0; i < n; i++)
    {
        SetCoeff(qpol[i], 0, -pts[i]);''','''        pts[i] = q[offset+i];

    Vec<zz_pX> qpol;
    qpol.SetLength(n);
    for (long i = 0; i < n; i++)
    {
        SetCoeff(qpol[i], 0, -q[i]);''')],PRE2+'''
int main() {
  zz_p::FFTInit(0); SetSeed(ZZ(1)); Vec<zz_p> q, v; for (long i = 0; i < 20; i++) append(q, to_zz_p(3*i + 1));
  for (long off = 0; off < 6; off++) { zz_pX_Multipoint_General ev(q, off, 9); zz_pX f = random_zz_pX(9), g; ev.evaluate(v, f);
    for (long i = 0; i < 9; i++) CHECK(v[i] == eval(f, q[off + i])); ev.interpolate(g, v); CHECK(f == g); }
  return bad; }
''','general points taken from the middle of a vector','evaluation at other points than asked')

main('C01-slices','C01',[(M+'mat_lzz_pX_multiply_evaluate_FFT.cpp','''                        tmp[x].lo = sp_ll_red_21(rem(tmp[x].hi, pr, red1), tmp[x].lo, pr, red2);
                        tmp[x].hi = 0;
                    }
                    for (long j = 0; j < n0; ++j)
                        mul_add(tmp, vala[j+start], vb[j+start]);
                    start += n0;''','''                        tmp[x].lo = sp_ll_red_21(rem(tmp[x].hi, pr, red1), tmp[x].lo, pr, red2);
                        tmp[x].hi = 0;
                    }
                    for (long j = 0; j < n0; ++j)
                        mul_add(tmp, vala[j+start], vb[j+start]);''')],PRE2+'''
int main() {
  zz_p::FFTInit(0); zz_p::UserFFTInit(786433); SetSeed(ZZ(1));
  for (int t = 0; t < 2; t++) { if (t) zz_p::FFTInit(0);
    for (long n = 900; n < 1600; n += 650) { PM a = rnd(2, n, 6), b = rnd(n, 1, 7), c; multiply_evaluate_FFT_direct_ll_type(c, a, b); CHECK(eq(c, ref_mul(a, b))); } }
  zz_p::UserFFTInit(786433); return bad; }
''','an inner dimension of several accumulation slices and a prime below the maximal size','wrong products')

main('C02-slices','C02',[(M+'mat_lzz_pX_middle_product_evaluate_FFT.cpp','''                        tmp[x].lo = sp_ll_red_21_normalized(rem(tmp[x].hi, pr, red1), tmp[x].lo, pr, red2);
                        tmp[x].hi = 0;
                    }
                    for (long j = 0; j < n0; ++j)
                        mul_add(tmp, vala[j+start], vc[j+start]);
                    start += n0;''','''                        tmp[x].lo = sp_ll_red_21_normalized(rem(tmp[x].hi, pr, red1), tmp[x].lo, pr, red2);
                        tmp[x].hi = 0;
                    }
                    for (long j = 0; j < n0; ++j)
                        mul_add(tmp, vala[j+start], vc[j+start]);
                    start = n0;''')],PRE2+'''
int main() {
  zz_p::FFTInit(0); SetSeed(ZZ(1));
  for (long n = 300; n < 1100; n += 250) { PM a = rnd(2, n, 5), b = rnd(n, 2, 9), c, p = ref_mul(a, b); middle_product_evaluate_FFT_direct_ll_type(c, a, b, 4, 4);
    for (long i = 0; i < 2; i++) for (long j = 0; j < 2; j++) CHECK(c[i][j] == trunc(p[i][j] >> 4, 5)); }
  return bad; }
''','an inner dimension of several accumulation slices that is not a multiple of the slice length','wrong middle products')

main('C07-intmerge','C07',[(M+'mat_lzz_pX_kernel.cpp','''    while (i_interp < interp.NumRows())
    {
        // row computed via recursive calls and stored in `interp`
        kerbas[i].swap(interp[i_interp]);
        shift[i] = rdeg2[i_interp]+diff_shift;''','''    while (i_interp < interp.NumRows())
    {
        // row computed via recursive calls and stored in `interp`
        kerbas[i].swap(interp[i_interp]);
        shift[i] = rdeg2[i_interp];''')],PRE2+'''
int main() {
  zz_p::FFTInit(0); SetSeed(ZZ(1));
  for (long t = 0; t < 60; t++) { long n = 2 + t % 4, m = 2*n + t % 3, d = 1 + t % 2; PM f, k, g; f.SetDims(m, n);
    for (long i = 0; i <= n; i++) { long r = m - 1 - i; if (i < n) SetCoeff(f[r][i], d, 1); if (i > 0) f[r][i-1] = zz_pX(-1); }   // kernel: one row of degree n d, and constants
    VecLong s(m), rd; for (long i = 0; i < m; i++) s[i] = (i >= m - 1 - n ? d : 1) + t / 4; VecLong sh(s); g = f;
    kernel_basis_zls_via_interpolation(k, g, sh); row_degree(rd, k, s); CHECK(zero(ref_mul(k, f))); CHECK(k.NumRows() == m - n); CHECK(rd == sh); }
  return bad; }
''','a shift strictly larger than the row degrees, and kernel rows found in the recursive calls last','the returned shifted row degrees are off by a constant')

main('C05-order3','C05',[(M+'mat_lzz_pX_pmbasis_generic.cpp','''    const long order1 = (order%4==0 || order%4==1) ? (order/2) : (order/2+1);
    const long order2 = order-order1;

    // first recursive call, with 'pmat'
    Mat<zz_pX> trunc_pmat;
    trunc(trunc_pmat,pmat,order1);
    pmbasis_generic_2n_n(appbas,trunc_pmat,order1);

    // residual = (appbas * pmat * X^-order1) mod X^order2
    // residual = (appbas * RightShift(pmat, order1/2) * X^-ceil(order1/2)) mod X^order2
    // (right shift allowed since deg(appbas) = ceil(order1 / 2) )
    Mat<zz_pX> shift_pmat, residual;
    RightShift(shift_pmat, pmat, order1/2);
    trunc(shift_pmat, shift_pmat, order - order1/2);
    middle_product(residual, appbas, shift_pmat, order1 - order1/2, order2-1);

    // second recursive call, with 'residual'
    Mat<zz_pX> appbas2;
    pmbasis_generic_2n_n_top_rows(''','''    const long order1 = (order%4 != 2) ? (order/2) : (order/2+1);
    const long order2 = order-order1;

    // first recursive call, with 'pmat'
    Mat<zz_pX> trunc_pmat;
    trunc(trunc_pmat,pmat,order1);
    pmbasis_generic_2n_n(appbas,trunc_pmat,order1);

    // residual = (appbas * pmat * X^-order1) mod X^order2
    // residual = (appbas * RightShift(pmat, order1/2) * X^-ceil(order1/2)) mod X^order2
    // (right shift allowed since deg(appbas) = ceil(order1 / 2) )
    Mat<zz_pX> shift_pmat, residual;
    RightShift(shift_pmat, pmat, order1/2);
    trunc(shift_pmat, shift_pmat, order - order1/2);
    middle_product(residual, appbas, shift_pmat, order1 - order1/2, order2-1);

    // second recursive call, with 'residual'
    Mat<zz_pX> appbas2;
    pmbasis_generic_2n_n_top_rows(''')],PRE2+'''
int main() {
  zz_p::FFTInit(0); SetSeed(ZZ(1));
  for (long order = 33; order < 60; order++) { PM f = rnd(4, 2, order), b, full; pmbasis_generic_2n_n_top_rows(b, f, order); pmbasis_generic_2n_n(full, f, order);
    PM r = ref_mul(b, f); for (long i = 0; i < r.NumRows(); i++) for (long j = 0; j < 2; j++) CHECK(IsZero(trunc(r[i][j], order)));
    VecLong s(4), d0, d1; row_degree(d0, b); row_degree(d1, full); CHECK(b.NumRows() == 2); for (long i = 0; i < 2; i++) CHECK(d0[i] == d1[i]);
    long d = order / 2; for (long i = 0; i < 2; i++) for (long j = 0; j < 2; j++) {   // documented shape of the left block: X^d I + ..., or X (X^d I + ...)
      if (order % 2 == 0) { CHECK(deg(b[i][j] - (i == j ? LeftShift(zz_pX(1), d) : zz_pX())) < d); CHECK(deg(b[i][j+2]) < d); }
      else { CHECK(deg(b[i][j] - (i == j ? LeftShift(zz_pX(1), d + 1) : zz_pX())) <= d); CHECK(coeff(b[i][j], 0) == 0); CHECK(coeff(b[i][j+2], 0) == 0); CHECK(deg(b[i][j+2]) <= d); } } }
  return bad; }
''','an order congruent to 3 modulo 4, above the recursion threshold, in the variant that returns the top rows only','basis degrees that are not minimal')

main('C06-degupd','C06',[(M+'mat_lzz_pX_interpolant.cpp','''            // Now, update shifted row degree:
            // entries corresponding to kernel pivot indices are kept, others are +1
            // Also, deduce the new degree of intbas
            bool deg_updated = false;
            for (long i = 0; i < m; ++i)
                if (not is_pivind[i])
                {
                    ++shift[i];
                    if (not deg_updated && not IsZero(coeffs_intbas[deg_intbas][i]))
                    { ++deg_intbas; deg_updated=true; }
                }''','''            // Now, update shifted row degree:
            // entries corresponding to kernel pivot indices are kept, others are +1
            // Also, deduce the new degree of intbas
            bool deg_updated = false;
            for (long i = 0; i < m; ++i)
                if (not is_pivind[i])
                {
                    ++shift[i];
                    if (not deg_updated)
                    {
                        if (not IsZero(coeffs_intbas[deg_intbas][i]))
                            ++deg_intbas;
                        deg_updated=true;
                    }
                }''')],PRE2+'''
int main() {
  zz_p::FFTInit(0); SetSeed(ZZ(1));
  for (long t = 0; t < 40; t++) { long m = 4, n = 2, N = 8; Vec<Mat<zz_p>> ev; ev.SetLength(N); Vec<zz_p> pts; for (long i = 0; i < N; i++) { append(pts, to_zz_p(i + 2)); random(ev[i], m, n); }
    VecLong s = {t % 4, (t*7) % 5, 0, (t*3) % 4}, s0(s), rd; Vec<Mat<zz_p>> e2(ev); PM b; mbasis_resupdate(b, e2, pts, s, 0, N);
    for (long i = 0; i < N; i++) { Mat<zz_p> v = eval(b, pts[i]) * ev[i]; CHECK(IsZero(v)); } row_degree(rd, b, s0); CHECK(rd == s); CHECK(is_row_ordered_weak_popov(b, s0)); }
  return bad; }
''','an iteration whose first non-pivot row does not reach the current degree while a later one does','lost leading coefficients')

main('C08-newtonb','C08',[('lzz_pX_extra/src/lzz_pX_extra.cpp','if (deg(a) < k && deg(b) < k && l == m)','if (deg(a) < k && l == m)')],PRE2+'''
int main() {
  zz_p::FFTInit(0); SetSeed(ZZ(1));
  for (long m = 100; m < 700; m += 50) { zz_pX a = random_zz_pX(10), b = random_zz_pX(m), x; SetCoeff(a, 0, 3); InvTruncMul(x, b, a, m); CHECK(trunc(x*a - b, m) == 0); CHECK(deg(x) < m); }
  return bad; }
''','a numerator of degree beyond half the precision with a denominator of small degree','wrong series division')

main('C04-zerocol','C04',[(M+'mat_lzz_pX_forms.cpp','''            long d = deg(pmat[i][j]) + shift[i];
            if (d >= shift[i]) // pmat[i][j] nonzero
            {
                if (d > pivdeg[j])''','''            long d = deg(pmat[i][j]) + shift[i];
            if (d > min_cdeg) // pmat[i][j] nonzero
            {
                if (d > pivdeg[j])''')],PRE2+'''
int main() {
  zz_p::init(97); PM a; a.SetDims(3, 2); SetCoeff(a[0][0], 0, 1); SetCoeff(a[1][1], 4, 5); VecLong s = {0, 1, 9}, pi, pd; col_pivots(pi, pd, a, s);
  CHECK(pi[0] == 0 && pd[0] == 0); CHECK(pi[1] == 1 && pd[1] == 4); return bad; }
''','a zero entry in a row whose shift exceeds the degree of the column','a zero entry is taken as the pivot')

main('C18-fulltrunc','C18',[('lzz_pXY/src/lzz_pXY.cpp','''    if (i > dy)
    {
        b = a;
        return;
    }

    b.rep.SetLength(i);''','''    if (i >= dy)
    {
        b = a;
        return;
    }

    b.rep.SetLength(i);''')],PRE2+'''
int main() {
  zz_p::init(97); SetSeed(ZZ(1));
  for (long dy = 1; dy < 6; dy++) for (long i = 0; i < 8; i++) { zz_pXY f, g; random_zz_pXY(f, 4, dy); trunc_y(g, f, i); CHECK(g.degY() < i || f.is_zero()); for (long j = 0; j < min(i, f.degY() + 1); j++) CHECK(j > g.degY() ? IsZero(f.rep[j]) : g.rep[j] == f.rep[j]); }
  return bad; }
''','truncation exactly at the degree','the leading term is kept')

main('C17-equalkro','C17',[(SX+'sylvester_lzz_pX.cpp','''        from_kronecker(out, kro_res, dTAx + dFx);
        long ell = out.length();
        out.SetLength(n);
        for (long i = 0; i < ell; i++)
            trunc(out[i], out[i], s);
        for (long i = ell; i < n; i++)
            out[i] = 0;
    }
    else
    {
        zz_pX kro_res1, kro_res2;
        Vec<zz_pX> out1, out2;
        kro_res1 = kro_A * kro_F;
        from_kronecker(out1, kro_res1, dTAx + dFx);
        kro_res2 = kro_B * kro_G;
        from_kronecker(out2, kro_res2, dTBx + dGx);
        out.SetLength(n);
        for (long i = 0; i < n; i++)
        {
            out[i] = 0;
            if (i < out1.length())
                trunc(out[i], out1[i], s);''','''        from_kronecker(out, kro_res, dTAx + dFx);
        long ell = out.length();
        out.SetLength(n);
        for (long i = 0; i < ell; i++)
            trunc(out[i], out[i], s);
    }
    else
    {
        zz_pX kro_res1, kro_res2;
        Vec<zz_pX> out1, out2;
        kro_res1 = kro_A * kro_F;
        from_kronecker(out1, kro_res1, dTAx + dFx);
        kro_res2 = kro_B * kro_G;
        from_kronecker(out2, kro_res2, dTBx + dGx);
        out.SetLength(n);
        for (long i = 0; i < n; i++)
        {
            out[i] = 0;
            if (i < out1.length())
                trunc(out[i], out1[i], s);''')],PRE2+'''
int main() {
  zz_p::FFTInit(0); SetSeed(ZZ(1)); Vec<zz_pX> a, b, u, o; for (long i = 0; i < 4; i++) append(a, random_zz_pX(4)); for (long i = 0; i < 3; i++) append(b, random_zz_pX(4));
  sylvester_lzz_pX S(a, b); PM D = S.to_dense(); long n = S.NumRows();
  for (int t = 0; t < 6; t++) { u.SetLength(n); for (long i = 0; i < n; i++) u[i] = random_zz_pX(4); if (t & 1) for (long i = 0; i < n; i++) if (i != 0 && i != 2) u[i] = 0;
    S.mul_right_trunc(o, u, 5); CHECK(o.length() == n); for (long i = 0; i < n; i++) { zz_pX s; for (long j = 0; j < n; j++) s += D[i][j]*u[j]; CHECK(o[i] == trunc(s, 5)); } }
  return bad; }
''','an output vector used before, and a product of lower degree in y than the dimension','stale entries in the output')

main('C19-shifted','C19',[('lzz_pX_seq/src/lzz_pX_seq.cpp','''	    if (tprime + t < d && bitmap[tprime+t] == false){
	      bitmap[tprime+t] = true;
	      Q.push(tprime+t);
	      fs[tprime+t] = shift_x(fc, tprime);
	      zz_pX x_tprime;
	      SetCoeff(x_tprime,tprime,1);
	      us[t+tprime] = mulTrunc(uc, x_tprime, d);
	    }
	    break;
	  }else{
	    zz_pX a{1}; 
	    solve(a,l,r,d);''','''	    if (tprime + t < d && bitmap[tprime+t] == false){
	      bitmap[tprime+t] = true;
	      Q.push(tprime+t);
	      fs[tprime+t] = shift_x(f, tprime);
	      zz_pX x_tprime;
	      SetCoeff(x_tprime,tprime,1);
	      us[t+tprime] = mulTrunc(u, x_tprime, d);
	    }
	    break;
	  }else{
	    zz_pX a{1}; 
	    solve(a,l,r,d);''')],PRE2+'''
int main() {
  SetSeed(ZZ(1)); zz_p::init(7);
  // the leading (y-)degrees of the generators are those of the plain algorithm
  for (long t = 0; t < 4000; t++) { long d = 2 + t % 3, L = 2 + t % 5; Vec<zz_pX> S; for (long i = 0; i < L; i++) append(S, trunc(LeftShift(random_zz_pX(d), RandomBnd(d + 1)), d));
    Vec<zz_pXY> g, h; kurakin(d, S, g); modified_kurakin(d, S, h); fill_in(d, h);
    for (long i = 0; i < d; i++) { h[i].normalize(); g[i].normalize(); CHECK(h[i].degY() == g[i].degY()); } if (bad) break; }
  return bad; }
''','a sequence for which a multiple by a power of x becomes useful only at a later step','generators of too large degree in y: not the full ideal')

main('C03-mirror','C03',[(M+'mat_lzz_pX_utils.cpp','''            for (long j = 0; j < c; ++j)
                x[i][j] = a[i][j];
            RightShift(x[i][c], a[i][c], n);
            for (long j = c+1; j < x.NumCols(); ++j)
                x[i][j] = a[i][j];''','''            for (long j = 0; j < c; ++j)
                x[i][j] = a[i][j];
            if (deg(a[i][c]) >= n)
                RightShift(x[i][c], a[i][c], n);
            for (long j = c+1; j < x.NumCols(); ++j)
                x[i][j] = a[i][j];''')],PRE2+'''
int main() {
  zz_p::init(97); SetSeed(ZZ(1));
  for (long n = 0; n < 8; n++) { PM a = rnd(3, 3, 5), x = rnd(3, 3, 7); a[1][1] = 0; RightShiftCol(x, a, 1, n);
    for (long i = 0; i < 3; i++) for (long j = 0; j < 3; j++) CHECK(x[i][j] == (j == 1 ? a[i][j] >> n : a[i][j])); }
  return bad; }
''','a destination used before and a shift beyond the degree','stale entries')

main('C11-lastrow','C11',[(M+'mat_lzz_pX_division.cpp','''    for (long i = 1; i < m; ++i)
        if (rdegA[i] - rdegB[i] > d)''','''    for (long i = 1; i < m-1; ++i)
        if (rdegA[i] - rdegB[i] > d)''')],PRE2+'''
int main() {
  zz_p::FFTInit(0); SetSeed(ZZ(1));
  for (int t = 0; t < 10; t++) { PM b = rnd(3, 3, 4), a = rnd(3, 2, 6), q, r; if (t & 1) for (long j = 0; j < 2; j++) a[2][j] = random_zz_pX(9); quo_rem(q, r, a, b); PM p = ref_mul(b, q); VecLong rb, rr; row_degree(rb, b); row_degree(rr, r);
    for (long i = 0; i < 3; i++) { CHECK(rr[i] < rb[i]); for (long j = 0; j < 2; j++) CHECK(p[i][j] + r[i][j] == a[i][j]); } }
  return bad; }
''','a last row of larger degree than the others','the remainder is not reduced')

main('C12-odd','C12',[(M+'mat_lzz_pX_linearization.cpp','parlin_cols[j] = parlin_cols[j-1] + ceil( (tgt+1.0) / (parlin_degree[j-1]+1) );','parlin_cols[j] = parlin_cols[j-1] + std::max<long>(1, tgt / (parlin_degree[j-1]+1) );')],PRE2+'''
int main() {
  zz_p::FFTInit(0); SetSeed(ZZ(1));
  for (long D = 3; D < 30; D++) { PM a = rnd(2, 3, D + 1), l; VecLong pd(3, 2), td(3, D); VecLong c = column_partial_linearization(l, a, pd, td, 0);
    for (long j = 0; j < 3; j++) { CHECK(c[j+1] - c[j] == (D + 3) / 3); for (long i = 0; i < 2; i++) { zz_pX s; for (long k = c[j]; k < c[j+1]; k++) { s += l[i][k] << (3*(k - c[j])); CHECK(deg(l[i][k]) <= 2); } CHECK(s == a[i][j]); } } }
  return bad; }
''','the variant with a lower degree bound','expanded columns exceed the announced degree')

main('C14-lastmod','C14',[('lzz_pX_CRT/src/lzz_pX_CRT.cpp','combinations[i] = MulMod((val[i] % tree[0][i]), cofactors[i], tree[0][i]);','combinations[i] = MulMod((deg(val[i]) > deg(tree[0][i]) ? val[i] % tree[0][i] : val[i]), cofactors[i], tree[0][i]);')],PRE2+'''
int main() {
  zz_p::FFTInit(0); SetSeed(ZZ(1)); Vec<zz_pX> q, v, w; for (long i = 0; i < 5; i++) { zz_pX x; SetCoeff(x, 1 + i, 1); SetCoeff(x, 0, i + 1); append(q, x); } zz_pX_CRT crt(q);
  for (long e = -1; e < 4; e++) { v.SetLength(0); for (long i = 0; i < 5; i++) append(v, random_zz_pX(max(0L, deg(q[i]) + e))); zz_pX f; crt.combine(f, v); CHECK(deg(f) < 15); for (long i = 0; i < 5; i++) CHECK(f % q[i] == v[i] % q[i]); }
  return bad; }
''','a residue of exactly the degree of its modulus','recombination fails')

main('C21-int','C21',[(M+'mat_lzz_pX_kernel.cpp','''        for (long i = 0; i < m; ++i)
            projected_product += projected_kerbas[0][i] * projected_pmat[i][0];''','''        for (long i = 0; i + 1 < m; ++i)
            projected_product += projected_kerbas[0][i] * projected_pmat[i][0];''')],PRE2+'''
int main() {
  zz_p::FFTInit(0); SetSeed(ZZ(1)); std::ostringstream os; std::streambuf* old = std::cout.rdbuf(os.rdbuf());
  PM f = rnd(4, 2, 4), g = f, k; VecLong s(4, 4), s0(4); kernel_basis(k, g, s);
  bool r1 = is_kernel_basis(k, f, s0, REDUCED, true); PM h = f; h[3][0] += 1; bool r2 = is_kernel_basis(k, h, s0, REDUCED, true); std::cout.rdbuf(old);
  CHECK(r1); CHECK(!r2); return bad; }
''','the randomised variant of the kernel check','the last row of the matrix is ignored')

main('C24-magmafield','C24',[('magma_output/src/magma_output.cpp','''    cout << "U!(";
    magma_output(v.rep);''','''    cout << "U!(";
    if (deg(v) == 0)
    {
        cout << v.rep[0] << ")";
        return;
    }
    magma_output(trunc(v, v.rep.length() > 64 ? 64 : v.rep.length()).rep);''')],PRE2+'''
int main() {
  zz_p::init(97); SetSeed(ZZ(1));
  for (long n = 60; n < 70; n++) { zz_pX f = random_zz_pX(n); SetCoeff(f, n - 1, 1); std::ostringstream os; std::streambuf* old = std::cout.rdbuf(os.rdbuf()); magma_output(f); std::cout.rdbuf(old);
    long commas = 0; for (char ch : os.str()) commas += ch == ','; CHECK(commas == n - 1); }
  return bad; }
''','a polynomial with more than 64 coefficients','the text drops coefficients')
