import sys; import os; sys.path.insert(0,os.path.join(os.path.dirname(os.path.abspath(__file__)),'..'))
from mkseed import main
M='mat_lzz_pX_extra/src/'
PRE='''#include <iostream>
#include <NTL/lzz_pX.h>
#include <NTL/mat_lzz_p.h>
#include "util.h"
#include "mat_lzz_pX_extra.h"
#include "mat_lzz_pX_multiply.h"
#include "mat_lzz_pX_forms.h"
#include "mat_lzz_pX_approximant.h"
#include "mat_lzz_pX_interpolant.h"
#include "mat_lzz_pX_kernel.h"
#include "mat_lzz_pX_linearization.h"
#include "mat_lzz_pX_inverse.h"
#include "mat_lzz_pX_linsolve.h"
#include "mat_lzz_pX_determinant.h"
NTL_CLIENT
using namespace PML;
typedef Mat<zz_pX> PM;
static PM ref_mul(const PM& a, const PM& b) {
  PM c; c.SetDims(a.NumRows(), b.NumCols());
  for (long i = 0; i < a.NumRows(); i++) for (long j = 0; j < b.NumCols(); j++)
    for (long k = 0; k < a.NumCols(); k++) c[i][j] += a[i][k] * b[k][j];
  return c; }
static bool zero(const PM& a) { for (long i = 0; i < a.NumRows(); i++) for (long j = 0; j < a.NumCols(); j++) if (!IsZero(a[i][j])) return false; return true; }
static bool eq(const PM& a, const PM& b) {
  if (a.NumRows() != b.NumRows() || a.NumCols() != b.NumCols()) return false;
  for (long i = 0; i < a.NumRows(); i++) for (long j = 0; j < a.NumCols(); j++) if (a[i][j] != b[i][j]) return false;
  return true; }
static PM rnd(long m, long n, long len) { PM a; a.SetDims(m, n); for (long i = 0; i < m; i++) for (long j = 0; j < n; j++) a[i][j] = random_zz_pX(len); return a; }
static int bad = 0;
#define CHECK(x) do { if (!(x)) { std::cout << "FAILED: " #x << std::endl; bad = 1; } } while (0)
'''
