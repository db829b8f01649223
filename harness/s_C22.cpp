// C22: sessions generated by spec/Session.tla, replayed on the library.
// Several fields (worlds), registers and precomputed objects per world.
#include "core.h"
#include "lzz_p_extra.h"
#include "lzz_pX_CRT.h"
#include "mat_lzz_pX_extra.h"
#include "mat_lzz_pX_multiply.h"
#include "mat_lzz_pX_arith.h"
#include "mat_lzz_pX_utils.h"
#include "mat_lzz_pX_inverse.h"
#include "mat_lzz_pX_linsolve.h"
#include "mat_lzz_pX_determinant.h"
#include "mat_lzz_pX_approximant.h"
#include "mat_lzz_pX_kernel.h"
#include <map>
typedef Mat<zz_pX> PM;
typedef void (*mulfn)(PM&, const PM&, const PM&);
typedef void (*mpfn)(PM&, const PM&, const PM&, long, long);
static void gen1(PM& c, const PM& a, const PM& b) { multiply(c, a, b); }
static void trs(PM& c, const PM& a, const PM& b) { multiply_transform(c, a, b); }
static void g1(PM& b, const PM& a, const PM& c, long x, long y) { middle_product(b, a, c, x, y); }
static const std::map<std::string, mulfn> MUL = {
  {"multiply", gen1}, {"naive", multiply_naive}, {"waksman", multiply_waksman}, {"tr", trs}, {"tr_naive", multiply_transform_naive}, {"tr_kar", multiply_transform_karatsuba},
  {"tr_mont3", multiply_transform_montgomery3}, {"tr_kar4", multiply_transform_karatsuba4}, {"dense", multiply_evaluate_dense}, {"dense2", multiply_evaluate_dense2},
  {"primes3", multiply_3_primes}, {"geom", multiply_evaluate_geometric}, {"fft", multiply_evaluate_FFT}, {"fft_mm1", multiply_evaluate_FFT_matmul1}, {"fft_mm2", multiply_evaluate_FFT_matmul2},
  {"fft_mm3", multiply_evaluate_FFT_matmul3}, {"fft_ll", multiply_evaluate_FFT_direct_ll_type}, {"fft_direct", multiply_evaluate_FFT_direct}};
static const std::map<std::string, mpfn> MPR = {
  {"general", g1}, {"naive", middle_product_naive}, {"primes3", middle_product_3_primes}, {"dense", middle_product_evaluate_dense}, {"fft", middle_product_evaluate_FFT},
  {"fft_mm1", middle_product_evaluate_FFT_matmul1}, {"fft_mm2", middle_product_evaluate_FFT_matmul2}, {"fft_mm3", middle_product_evaluate_FFT_matmul3},
  {"fft_ll", middle_product_evaluate_FFT_direct_ll_type}, {"fft_direct", middle_product_evaluate_FFT_direct}};

struct World { zz_pContext ctx; long p; std::vector<PM> R; std::unique_ptr<mat_lzz_pX_lmultiplier> lm; std::unique_ptr<zz_pX_Multipoint> pt; };
static void mod_json(std::string& o, long p) { if (p > 46340) ser(o, Big(p)); else { o += '['; ser(o, p); o += ']'; } }

#define ALL(X) X(C01) X(C02) X(C03) X(C04) X(C05) X(C06) X(C07) X(C08) X(C09) X(C10) X(C11) X(C12) X(C13) X(C14) X(C15) X(C16) X(C17) X(C18) X(C19) X(C20) X(C21) X(C23) X(C24)
#define X(n) extern Suite SUITE_##n;
ALL(X)
#undef X
#define X(n) &SUITE_##n,
static Suite* const SUITES[] = {ALL(X)};
#undef X
// A history through the whole library: the calls A of one suite; the same calls (same sizes and shapes) under other
// moduli; calls B of another suite; and A again as the first time.  Whatever the library keeps between calls, every
// one of them has to satisfy its own postcondition.
static void mixed(Ctx& c) {
  const long N = sizeof(SUITES) / sizeof(*SUITES); Suite *A = SUITES[c.r.in(0, N - 1)], *B = SUITES[c.r.in(0, N - 1)];
  const unsigned long s1 = c.r.next(), s2 = c.r.next(), p1 = c.r.next(), p2 = c.r.next();
  auto go = [&](Suite* S, unsigned long s, unsigned long p) { Rng q(p); c.r = Rng(s); c.pr = &q; S->run(c); c.pr = nullptr; };
  go(A, s1, p1); go(A, s1, p2); go(B, s2, p1); go(A, s1, p1);
}
static void run(Ctx& c) {
  if (c.tok.empty()) { mixed(c); return; }
  size_t at = 0; auto next = [&]() { return c.tok[at++]; }; auto num = [&]() { return atol(c.tok[at++].c_str()); };
  long u = num(), n = u > 1 ? c.r.in(1, 2) : c.r.in(1, 3);
  std::vector<World> W(3);
  for (auto& w : W) {
    std::string k = next();
    if (k == "tiny") c.prime_of({P2, PTINY}); else if (k == "small") { long p; do p = c.r.one(2) ? c.r.in(500, 1500) : c.r.in(500, 4000); while (!ProbPrime(p)); c.set_p(p); }
    else if (k == "mid") c.prime_of({P16, P24, P30, P45}); else if (k == "big") c.prime_of({P59, P60}); else c.prime_cls(k == "fft" ? PFFT : PUFFT);
    w.ctx.save(); w.p = zz_p::modulus();
    for (long d : {2, 3, 1}) w.R.push_back(c.pmat_invct(n, d * u));
  }
  long cur = 0; W[0].ctx.restore(); c.modulus(W[0].p);
  c.op("ss.start"); c.val("n", n); c.val("w", 1); c.buf += ",\"P\":["; for (int i = 0; i < 3; i++) { if (i) c.buf += ','; mod_json(c.buf, W[i].p); }
  c.buf += "],\"R\":["; for (int i = 0; i < 3; i++) { W[i].ctx.restore(); if (i) c.buf += ','; ser(c.buf, W[i].R); } c.buf += ']';
  W[0].ctx.restore(); c.call(); c.ret(); c.end();
  while (at < c.tok.size()) {
    std::string f = next(), alg = next(); long ra = num(), rb = num(), rc = num(), k = num(), dg = num(); bool iv = num();
    if (f == "switch") {
      cur = ra - 1; c.op("ss.switch"); c.val("w", ra); c.call(); W[cur].ctx.restore(); c.ret(); c.out("R", W[cur].R); c.end(); continue;
    }
    World& w = W[cur]; std::vector<PM>& R = w.R;
    if (f == "set") {
      PM x = c.pmat_invct(n, k * u); c.op("ss.set"); c.val("rc", rc); c.val("dg", dg * u); c.val("iv", iv); c.call(); R[rc - 1] = x; c.ret(); c.out("c", R[rc - 1]); c.end(); continue;
    }
    bool dest = !(f == "det" || f == "lnew" || f == "ptnew" || f == "pteval" || f == "kernel"), two = f == "mul" || f == "multrunc" || f == "mp" || f == "solser" || f == "add" || f == "sub";
    long D = k * u, da = 0;
    static const std::map<std::string, std::string> SUB = {{"lnew", "lm.new"}, {"lmul", "lm.mul"}, {"ptnew", "mp.new"}, {"pteval", "mp.evalm"}, {"muls", "mul.s"}, {"mulp", "mul.p"}, {"kernel", "kerbas"}};
    std::string sub = SUB.count(f) ? SUB.at(f) : f;
    zz_p es; zz_pX ep; PM dummy; Vec<zz_p> gp; zz_p gr;
    c.op("ss.op"); c.val("alg", f + ":" + alg); c.val("sub", sub);
    c.val("ra", f == "lmul" || f == "ptnew" || f == "kernel" ? 0L : ra); c.val("rb", two || f == "lmul" ? rb : 0L); c.val("rc", dest ? rc : 0L);
    c.val("fa", f == "pteval" ? "f" : "a"); c.val("fb", f == "mp" ? "c" : "b"); c.val("fo", f == "mp" ? "b" : "c"); c.val("dg", dg * u); c.val("iv", iv);
    for (long i = 0; i < 3; i++) if (!dest || i != rc - 1) { // every other register is left alone
      std::string s; ser(s, R[i]); PM* q = &R[i]; c.frame.push_back(std::make_pair(s, std::function<std::string()>([q]() { std::string t; ser(t, *q); return t; }))); }
    const PM& A = ra ? R[ra - 1] : dummy; const PM& B = rb ? R[rb - 1] : dummy; PM& C = dest ? R[rc - 1] : dummy;
    if (f == "mul") { c.call(); MUL.at(alg)(C, A, B); }
    else if (f == "multrunc") { c.val("t", D + 1); c.call(); mul_trunc(C, A, B, D + 1); }
    else if (f == "mp") { // degrees as the model bounds them: any da >= deg A with deg B <= da + D
      da = std::max(std::max(deg(A), deg(B) - D), 0L); if (c.r.one(2)) da += c.r.in(0, 2); c.val("da", da); c.val("db", D); c.call(); MPR.at(alg)(C, A, B, da, D); }
    else if (f == "invtrunc") { c.val("d", D + 1); c.call(); if (alg == "plain") plain_inv_trunc(C, A, D + 1); else if (alg == "middle") newton_inv_trunc_middle_product(C, A, D + 1, c.r.in(1, 4)); else if (alg == "fft") newton_inv_trunc_FFT(C, A, D + 1, c.r.in(1, 4)); else if (alg == "geometric") newton_inv_trunc_geometric(C, A, D + 1, c.r.in(1, 4)); else inv_trunc(C, A, D + 1); }
    else if (f == "solser") { c.val("n", D + 1); c.call(); if (alg == "low") solve_series_low_precision(C, A, B, D + 1, c.r.in(1, 4)); else if (alg == "high") solve_series_high_precision(C, A, B, D + 1); else solve_series(C, A, B, D + 1); }
    else if (f == "appbas") {
      VecLong s(n, 0), t(s), ord(n, D); c.val("ord", ord); c.val("s", s); c.val("form", alg == "popov_pmbasis" ? 4 : 3); c.val("ht", true); c.val("gen", false); c.call();
      if (alg == "mbasis") mbasis(C, A, D, t); else if (alg == "pmbasis") pmbasis(C, A, D, t); else if (alg == "popov_pmbasis") popov_pmbasis(C, A, D, t); else if (alg == "mbasis_plain") mbasis_plain(C, A, D, t);
      else if (alg == "mbasis_rescomp") mbasis_rescomp(C, A, D, t); else if (alg == "mbasis_resupdate") mbasis_resupdate(C, A, D, t); else appbas_iterative(C, A, ord, t, c.r.one(2));
      c.ret(); c.out("c", C); c.out("t", t); c.end(); continue;
    }
    else if (f == "det") { zz_pX det = c.poly(5); c.call(); if (alg == "minors") { if (n <= 4) determinant_expansion_by_minors(det, A); } else if (alg == "minors_rec") determinant_expansion_by_minors_rec(det, A); else if (alg == "general") determinant_via_evaluation_general(det, A); else if (alg == "geometric") determinant_via_evaluation_geometric(det, A); else determinant_via_evaluation_FFT(det, A);
      c.ret(); c.out("c", det); c.end(); continue; }
    else if (f == "lnew") { c.val("id", 1); c.val("dB", D); c.call();
      if (alg == "get") w.lm = get_lmultiplier(A, D); else if (alg == "fft_direct") w.lm.reset(new mat_lzz_pX_lmultiplier_FFT_direct(A, D)); else if (alg == "fft_matmul") w.lm.reset(new mat_lzz_pX_lmultiplier_FFT_matmul(A, D));
      else if (alg == "geometric") w.lm.reset(new mat_lzz_pX_lmultiplier_geometric(A, D)); else if (alg == "dense") w.lm.reset(new mat_lzz_pX_lmultiplier_dense(A, D)); else w.lm.reset(new mat_lzz_pX_lmultiplier_3_primes(A, D));
      c.ret(); c.out("nr", w.lm->NumRows()); c.out("nc", w.lm->NumCols()); c.out("da", w.lm->degA()); c.out("db", w.lm->degB()); c.end(); continue; }
    else if (f == "lmul") { c.val("id", 1); c.call(); w.lm->multiply(C, B); }
    else if (f == "ptnew") { c.val("id", 2); long m = D + 1; c.val("n", m);
      if (alg == "general") { c.val("kind", "get_general"); c.call(); w.pt.reset(new zz_pX_Multipoint_General(get_general_points(m))); }
      else if (alg == "geometric") { c.val("kind", "get_geometric"); c.call(); w.pt.reset(new zz_pX_Multipoint_Geometric(get_geometric_points(m))); }
      else { c.val("kind", "get_fft"); c.call(); w.pt.reset(new zz_pX_Multipoint_FFT(get_FFT_points(m))); }
      Vec<zz_p> pts; w.pt->get_points(pts); zz_p gq, gs; if (alg == "geometric") { gq = ((zz_pX_Multipoint_Geometric&)*w.pt).get_q(); gs = ((zz_pX_Multipoint_Geometric&)*w.pt).get_s(); }
      c.ret(); c.out("pts", pts); c.out("len", (long)w.pt->length()); c.out("gq", gq); c.out("gs", gs); c.out("fe", 0); c.out("fi", 0); c.end(); continue; }
    else if (f == "pteval") { c.val("id", 2); Vec<Mat<zz_p>> v; c.call(); w.pt->evaluate_matrix(v, A); c.ret(); c.out("c", v); c.end(); continue; }
    else if (f == "kernel") { PM a(INIT_SIZE, n, 1), b; for (long i = 0; i < n; i++) a[i][0] = R[ra - 1][i][0]; VecLong s(n, 0); c.val("a", a); c.val("s", s); c.val("form", 1); c.val("ht", false); c.val("hp", false); c.call(); kernel_basis(b, a, s); c.ret(); c.out("c", b); c.end(); continue; }
    else if (f == "add") { c.call(); PML::add(C, A, B); }
    else if (f == "sub") { c.call(); PML::sub(C, A, B); }
    else if (f == "neg") { c.call(); PML::negate(C, A); }
    else if (f == "trunc") { c.val("k", D + 1); c.call(); trunc(C, A, D + 1); }
    else if (f == "shl") { long e = (k - 3) * u; c.val("k", e); c.call(); LeftShift(C, A, e); }
    else if (f == "rev") { c.val("k", D); c.call(); reverse(C, A, D); }
    else if (f == "transp") { c.call(); transpose(C, A); }
    else if (f == "muls") { es = c.nzelt(); c.val("s", es); c.call(); mul(C, A, es); }
    else if (f == "mulp") { ep = c.poly(D); c.val("s", ep); c.call(); mul(C, A, ep); }
    else { c.call(); abort(); }
    c.ret(); c.out(f == "mp" ? "b" : "c", C); c.end();
  }
}
static long ncases(bool deep) { return deep ? 20000 : 900; }
Suite THE_SUITE = {"C22", run, ncases};
