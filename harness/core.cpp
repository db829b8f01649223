#include "core.h"
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <cstring>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <sstream>
#include <NTL/tools.h>

bool wide_mod() { return zz_p::modulus() > 46340; }
void ser(std::string& o, long x) {
  if (x > 2147483647L) x = 2147483647L; if (x < -2147483647L) x = -2147483647L;
  o += std::to_string(x);
}
void ser(std::string& o, const Big& x) {
  long v = x.v; o += '['; o += std::to_string(v >> 30); o += ','; o += std::to_string(v & ((1L << 30) - 1)); o += ']';
}
void ser(std::string& o, bool x) { o += x ? "true" : "false"; }
void ser(std::string& o, const std::string& x) {
  o += '"';
  for (unsigned char c : x) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c == '\n') o += "\\n"; else if (c == '\t') o += "\\t";
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
    else o += c;
  }
  o += '"';
}
void ser(std::string& o, const char* x) { ser(o, std::string(x)); }
static void ser_raw(std::string& o, long v, bool w) {
  if (w) ser(o, Big(v)); else ser(o, v);
}
void ser(std::string& o, const zz_p& x) { ser_raw(o, rep(x), wide_mod()); }
void ser(std::string& o, const zz_pX& x) {
  bool w = wide_mod();
  o += '['; for (long i = 0; i < x.rep.length(); i++) { if (i) o += ','; ser_raw(o, rep(x.rep[i]), w); } o += ']';
}

// ------------------------------------------------------------------ logging
static FILE* OUT;
struct Shared { volatile long cur; volatile int open; volatile int done; volatile long nev; };
static Shared* SH;
static long TMO = 20;

static void arm(long sec) {
  struct itimerval t; memset(&t, 0, sizeof t); t.it_value.tv_sec = sec;
  setitimer(ITIMER_PROF, &t, 0);
}
void Ctx::op(const char* name) { buf = "{\"op\":\""; buf += name; buf += "\",\"i\":"; buf += std::to_string(idx); frame.clear(); }
void Ctx::modulus(long p) {
  op("modulus"); buf += ",\"p\":";
  if (p > 46340) ser(buf, Big(p)); else { buf += '['; ser(buf, p); buf += ']'; }
  buf += ",\"st\":\"ok\"}\n"; fputs(buf.c_str(), OUT); fflush(OUT);
}
void Ctx::call() {
  fputs(buf.c_str(), OUT); fflush(OUT); buf.clear(); SH->open = 1; arm(TMO);
}
void Ctx::ret() {
  arm(TMO);
  bool ok = true;
  for (auto& f : frame) if (f.first != f.second()) ok = false;
  frame.clear();
  buf += ",\"fr\":"; ser(buf, ok);
  long p = zz_p::modulus();
  buf += ",\"pa\":"; if (p > 46340) ser(buf, Big(p)); else { buf += '['; ser(buf, p); buf += ']'; }
}
void Ctx::end() {
  buf += ",\"st\":\"ok\"}\n"; fputs(buf.c_str(), OUT); fflush(OUT); buf.clear(); SH->open = 0; nev++; SH->nev++;
}

// --------------------------------------------------------------- generators
static long rand_prime(Rng& r, long lo, long hi) {
  for (;;) { long p = r.in(lo, hi) | 1; if (p >= lo && p <= hi && ProbPrime(p, 10)) return p; }
}
void Ctx::set_p(long p) { Rng& R = P(); zz_p::init(p); SetSeed(to_ZZ((long)(R.next() >> 2))); modulus(p); }
long Ctx::prime_cls(int cls) {
  Rng& R = P(); long p;
  switch (cls) {
  case P2: p = 2; break;
  case PTINY: p = R.pick({3, 5, 7, 11, 13, 17}); break;
  case PSMALL: p = R.one(3) ? R.pick({101, 251, 257, 509, 1021}) : rand_prime(R, 100, 4000); break;
  case P16: p = rand_prime(R, 20000, R.one(2) ? 46337 : 65521); break;
  case P24: p = rand_prime(R, 1L << 22, (1L << 25) - 1); break;
  case P30: p = R.one(4) ? rand_prime(R, (1L << 26), (1L << 26) + 5000) : rand_prime(R, (1L << 26), (1L << 30) - 1); break;
  case P45: p = rand_prime(R, 1L << 31, 1L << 50); break;
  case P59: p = rand_prime(R, 1L << 55, 1L << 59); break;
  case P60: p = R.one(2) ? 1152921504606846883L : rand_prime(R, (1L << 60) - (1L << 40), (1L << 60) - 1); break;
  case PFFT: zz_p::FFTInit(R.in(0, 4)); SetSeed(to_ZZ((long)(R.next() >> 2))); p = zz_p::modulus(); modulus(p); return p;
  case PUFFT: p = R.pick({12289, 40961, 65537, 786433, 7340033, 998244353});
    zz_p::UserFFTInit(p); SetSeed(to_ZZ((long)(R.next() >> 2))); modulus(p); return p;
  case PLOW: p = R.pick({97, 113, 193, 449, 577, 641, 1153});      // FFT primes with few roots of unity
    zz_p::UserFFTInit(p); SetSeed(to_ZZ((long)(R.next() >> 2))); modulus(p); return p;
  default: p = 13;
  }
  set_p(p); return p;
}
long Ctx::prime() {
  Rng& R = P();
  static const int w[] = {P2, PTINY, PTINY, PSMALL, PSMALL, P16, P24, P24, P30, P30, P45, P59, P60, P60, PFFT, PFFT, PFFT, PUFFT, PUFFT};
  return prime_cls(w[R.in(0, sizeof(w) / sizeof(int) - 1)]);
}
long Ctx::prime_min(long lo) {
  Rng& R = P();
  static const int cls[] = {P2, PTINY, PSMALL, P16, P24, P30, P45, P59, P60, PFFT, PUFFT};
  static const long mn[] = {2, 3, 100, 20000, 1L << 22, 1L << 26, 1L << 31, 1L << 55, (1L << 60) - (1L << 40), 1L << 40, 12289};
  for (;;) {
    int k = R.in(0, 10);
    if (mn[k] >= lo) return prime_cls(cls[k]);
    if (k == 1 && lo <= 17) { set_p(R.pick({17, 19, 23})); return zz_p::modulus(); }
  }
}
long Ctx::prime_crt(long terms) {
  Rng& R = P();
  zz_p::FFTInit(0); ZZ t = to_ZZ(zz_p::modulus());
  if (R.one(2)) { zz_p::FFTInit(1); t = t * zz_p::modulus() / 2; }
  long p = to_long(SqrRoot(t / terms));
  if (p > (1L << 60) - 2000) p = (1L << 60) - 2000;
  if (terms > 1 && R.one(2)) {     // just above: one term less would still fit
    long q = to_long(SqrRoot(t / (terms - R.in(1, std::max(1L, terms / 4)))));
    if (q < (1L << 60) - 2 && q > p + 100) { set_p(rand_prime(R, p, q)); return zz_p::modulus(); }
  }
  long w = std::max(50L, p >> R.in(3, 20));
  set_p(rand_prime(R, p - (R.one(3) ? 0 : w), std::min(p + (R.one(3) ? w : w / 16 + 50), (1L << 60) - 1))); return zz_p::modulus();
}
zz_p Ctx::elt() {
  long p = zz_p::modulus();
  switch (r.in(0, 9)) {
  case 0: return zz_p(0);
  case 1: return to_zz_p(1);
  case 2: return to_zz_p(p - 1);
  default: return to_zz_p((long)(r.next() % (unsigned long)p));
  }
}
zz_p Ctx::nzelt() { zz_p a; do a = elt(); while (IsZero(a)); return a; }
static zz_p uni(Rng& r) { return to_zz_p((long)(r.next() % (unsigned long)zz_p::modulus())); }
zz_pX Ctx::dense(long d) {
  zz_pX f; if (d < 0) return f; f.rep.SetLength(d + 1);
  for (long i = 0; i <= d; i++) f.rep[i] = uni(r);
  f.normalize(); return f;
}
zz_pX Ctx::poly_exact(long d) { zz_pX f = dense(d); while (coeff(f, d) == 0) SetCoeff(f, d, uni(r)); return f; }
zz_pX Ctx::poly(long d) {
  zz_pX f; if (d < 0) return f;
  switch (r.in(0, 11)) {
  case 0: return f;                                            // zero
  case 1: SetCoeff(f, 0, elt()); return f;                     // constant
  case 2: SetCoeff(f, r.in(0, d), nzelt()); return f;          // monomial
  case 3: f.rep.SetLength(d + 1); for (long i = 0; i <= d; i++) f.rep[i] = to_zz_p(zz_p::modulus() - 1); f.normalize(); return f;
  case 4: { long k = r.in(1, 3); for (long i = 0; i < k; i++) SetCoeff(f, r.in(0, d), elt()); return f; }
  case 5: f = dense(r.in(0, d)); return f;
  case 6: { long v = r.in(0, d); f = dense(d - v); return f << v; }   // high valuation
  default: return dense(d);
  }
}
Vec<zz_p> Ctx::vec(long n) { Vec<zz_p> v; v.SetLength(n); int k = r.in(0, 9); for (long i = 0; i < n; i++) v[i] = k == 0 ? zz_p(0) : k == 1 ? to_zz_p(zz_p::modulus() - 1) : k == 2 ? elt() : uni(r); if (k == 3 && n) { bool hd = r.one(2); for (long i = r.in(1, std::min(n, 1 + n / 2)); i > 0; i--) v[hd ? i - 1 : n - i] = 0; } return v; }
Vec<zz_pX> Ctx::pvec(long n, long d) { Vec<zz_pX> v; v.SetLength(n); bool dn = r.one(2); for (long i = 0; i < n; i++) v[i] = dn ? dense(d) : poly(d); return v; }
Mat<zz_p> Ctx::mat(long m, long n) {
  int k = r.in(0, 9);
  if (k == 9 && m && n) return mat_rank(m, n, r.in(0, std::min(m, n)));
  if (k == 8) return mat_dep(m, n);
  Mat<zz_p> a; a.SetDims(m, n);
  for (long i = 0; i < m; i++) for (long j = 0; j < n; j++) a[i][j] = k == 0 ? zz_p(0) : k == 1 ? to_zz_p(zz_p::modulus() - 1) : k <= 3 ? elt() : uni(r);
  if (k == 4 || k == 5) for (long i = 0; i < (k == 4 ? m : n); i++) if (r.one(2)) {       // zeros at an end of some rows, or of some columns
    long w = k == 4 ? n : m, z = r.in(0, w); bool hd = r.one(3);
    for (long t = 0; t < z; t++) { long j = hd ? t : w - 1 - t; (k == 4 ? a[i][j] : a[j][i]) = 0; }
  }
  return a;
}
Mat<zz_p> Ctx::mat_dep(long m, long n) {       // sparse, later rows often combinations of earlier ones
  Mat<zz_p> a; a.SetDims(m, n); long den = r.in(1, 6);
  for (long i = 0; i < m; i++) for (long j = 0; j < n; j++) if (r.one(den)) a[i][j] = elt();
  for (long i = 1; i < m; i++) if (r.one(3)) { a[i] = a[r.in(0, i - 1)]; if (r.one(2)) { long k = r.in(0, i - 1); zz_p e = elt(); for (long j = 0; j < n; j++) a[i][j] += e * a[k][j]; } }
  if (r.one(2)) for (long i = m - 1; i > 0; i--) { long j = r.in(0, i); if (i != j) swap(a[i], a[j]); }
  return a;
}
Mat<zz_p> Ctx::mat_rank(long m, long n, long k) {
  Mat<zz_p> a, b, c; a.SetDims(m, k); b.SetDims(k, n); c.SetDims(m, n);
  for (long i = 0; i < m; i++) for (long j = 0; j < k; j++) a[i][j] = uni(r);
  for (long i = 0; i < k; i++) for (long j = 0; j < n; j++) b[i][j] = uni(r);
  if (k > 0) mul(c, a, b);
  return c;
}
Mat<zz_p> Ctx::inv_mat(long n) {
  Mat<zz_p> l, u, c; l.SetDims(n, n); u.SetDims(n, n);
  for (long i = 0; i < n; i++) { for (long j = 0; j < i; j++) { l[i][j] = elt(); u[j][i] = elt(); } l[i][i] = 1; do u[i][i] = elt(); while (GCD(rep(u[i][i]), zz_p::modulus()) != 1); }
  c.SetDims(n, n);
  for (long i = 0; i < n; i++) for (long j = 0; j < n; j++) { zz_p s(0); for (long k = 0; k < n; k++) s += l[i][k] * u[k][j]; c[i][j] = s; }
  for (long i = n - 1; i > 0; i--) { long j = r.in(0, i); if (j != i) swap(c[i], c[j]); }
  return c;
}
Mat<zz_pX> Ctx::pmat_dense(long m, long n, long d) {
  Mat<zz_pX> a; a.SetDims(m, n);
  for (long i = 0; i < m; i++) for (long j = 0; j < n; j++) a[i][j] = dense(d);
  return a;
}
Mat<zz_pX> naive_mul(const Mat<zz_pX>& a, const Mat<zz_pX>& b) {
  Mat<zz_pX> c; c.SetDims(a.NumRows(), b.NumCols());
  for (long i = 0; i < a.NumRows(); i++) for (long j = 0; j < b.NumCols(); j++) {
    zz_pX s, t; for (long k = 0; k < a.NumCols(); k++) { mul(t, a[i][k], b[k][j]); add(s, s, t); }
    c[i][j] = s; }
  return c;
}
Mat<zz_pX> Ctx::pmat_rank(long m, long n, long d, long k) {
  long d1 = r.in(0, std::max(0L, d));
  Mat<zz_pX> a = pmat_dense(m, k, d1), b = pmat_dense(k, n, std::max(0L, d) - d1);
  return naive_mul(a, b);
}
Mat<zz_pX> Ctx::pmat(long m, long n, long d) {
  Mat<zz_pX> a; a.SetDims(m, n);
  switch (r.in(0, 12)) {
  case 0: return a;
  case 12: for (long k = d; k >= 0; k--) { Mat<zz_p> b = r.one(2) ? mat_dep(m, n) : mat(m, n); for (long i = 0; i < m; i++) for (long j = 0; j < n; j++) SetCoeff(a[i][j], k, b[i][j]); } return a;
  case 1: for (long i = 0; i < m; i++) for (long j = 0; j < n; j++) a[i][j] = poly(d); return a;
  case 2: for (long i = 0; i < m; i++) { long e = r.in(-1, d); for (long j = 0; j < n; j++) a[i][j] = dense(e); } return a;   // row degrees
  case 3: for (long j = 0; j < n; j++) { long e = r.in(-1, d); for (long i = 0; i < m; i++) a[i][j] = dense(e); } return a;   // column degrees
  case 4: for (long i = 0; i < m; i++) for (long j = 0; j < n; j++) a[i][j] = dense(r.in(-1, d)); return a;
  case 5: if (m && n && d >= 0) return pmat_rank(m, n, d, r.in(1, std::min(m, n))); return a;
  case 6: for (long i = 0; i < m; i++) for (long j = 0; j < n; j++) if (r.one(3)) a[i][j] = poly(d); return a;                // sparse
  case 7: for (long i = 0; i < m; i++) for (long j = 0; j < n; j++) { a[i][j].rep.SetLength(d + 1); for (long k = 0; k <= d; k++) a[i][j].rep[k] = to_zz_p(zz_p::modulus() - 1); a[i][j].normalize(); } return a;
  default: return pmat_dense(m, n, d);
  }
}
Mat<zz_pX> Ctx::pmat_max(long m, long n, long d) {
  Mat<zz_pX> a; a.SetDims(m, n);
  for (long i = 0; i < m; i++) for (long j = 0; j < n; j++) { a[i][j].rep.SetLength(d + 1); for (long k = 0; k <= d; k++) a[i][j].rep[k] = to_zz_p(zz_p::modulus() - 1); }
  return a;
}
Mat<zz_pX> Ctx::pmat_invct(long n, long d) {
  Mat<zz_pX> a = pmat(n, n, d); Mat<zz_p> c = inv_mat(n);
  for (long i = 0; i < n; i++) for (long j = 0; j < n; j++) SetCoeff(a[i][j], 0, c[i][j]);
  return a;
}
Mat<zz_pX> Ctx::pmat_nonsing(long n, long d) {
  if (r.one(3)) return pmat_invct(n, d);
  // triangular with nonzero diagonal, then row/column permutation; or the above times such
  Mat<zz_pX> a; a.SetDims(n, n); bool up = r.one(2);
  for (long i = 0; i < n; i++) for (long j = 0; j < n; j++) if (i == j) { do a[i][j] = poly(d); while (IsZero(a[i][j])); } else if ((i < j) == up) a[i][j] = poly(d);
  if (r.one(2)) { Mat<zz_p> c = inv_mat(n); Mat<zz_pX> b; b.SetDims(n, n); for (long i = 0; i < n; i++) for (long j = 0; j < n; j++) b[i][j] = to_zz_pX(c[i][j]); a = naive_mul(b, a); }
  for (long i = n - 1; i > 0; i--) { long j = r.in(0, i); if (j != i) swap(a[i], a[j]); }
  return a;
}
std::vector<long> Ctx::shift(long n, long amp) {
  std::vector<long> s(n, 0);
  switch (r.in(0, 6)) {
  case 0: break;
  case 1: for (long i = 0; i < n; i++) s[i] = i * std::max(1L, amp / 2); break;
  case 2: for (long i = 0; i < n; i++) s[i] = (n - 1 - i) * std::max(1L, amp / 2); break;
  case 3: for (long i = 0; i < n; i++) s[i] = r.in(-amp, amp); break;
  case 4: for (long i = 0; i < n; i++) s[i] = r.in(0, 1); break;
  case 5: if (n) s[r.in(0, n - 1)] = r.one(2) ? 3 * amp : -3 * amp; break;
  case 6: for (long i = 0; i < n; i++) s[i] = r.in(0, amp); { long k = r.in(-5, 5); for (auto& x : s) x += k; } break;
  }
  return s;
}

std::string capture_stdout(const std::function<void()>& f) {
  fflush(stdout); std::cout.flush();
  int save = dup(1); FILE* t = tmpfile(); dup2(fileno(t), 1);
  f();
  std::cout.flush(); fflush(stdout); dup2(save, 1); close(save);
  std::string s; char b[4096]; size_t k; rewind(t); while ((k = fread(b, 1, sizeof b, t)) > 0) s.append(b, k); fclose(t);
  return s;
}

// --------------------------------------------------------------------- main
static unsigned long hash3(unsigned long a, unsigned long b, const char* s) {
  Rng r(a * 0x9E3779B97F4A7C15UL + b); unsigned long h = r.next();
  for (; *s; s++) { Rng q(h ^ (unsigned long)(unsigned char)*s); h = q.next(); }
  return h;
}
Small::Small(Ctx& c) {
  size_t at = 0; auto nx = [&]() { return std::stol(c.tok[at++]); };
  p = nx(); m = nx(); n = nx(); len = nx(); k = nx(); c.set_p(p);
  s.resize(nx()); for (auto& q : s) q = nx();
  F.SetDims(m, n); for (long i = 0; i < m; i++) for (long j = 0; j < n; j++) for (long e = 0; e < len; e++) SetCoeff(F[i][j], e, nx());
  r2 = nx(); c2 = nx(); len2 = nx();
  G.SetDims(r2, c2); for (long i = 0; i < r2; i++) for (long j = 0; j < c2; j++) for (long e = 0; e < len2; e++) SetCoeff(G[i][j], e, nx());
  if (at < c.tok.size()) { hp = true; ord.resize(nx()); for (auto& q : ord) q = nx(); pred.resize(nx()); for (auto& q : pred) q = nx(); }
}
int main(int argc, char** argv) {
  unsigned long seed = 1; long shard = 0, nshards = 1, n = -1, only = -1, upto = -1; const char* out = "trace.ndjson"; bool deep = false; const char* casef = 0;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i]; const char* v = i + 1 < argc ? argv[i + 1] : "";
    if (a == "--deep") { deep = true; continue; }
    if (a == "--count") { printf("%ld\n", THE_SUITE.ncases(deep)); return 0; }
    i++;
    if (a == "--seed") seed = strtoul(v, 0, 10); else if (a == "--shard") shard = atol(v); else if (a == "--shards") nshards = atol(v);
    else if (a == "--n") n = atol(v); else if (a == "--only") only = atol(v); else if (a == "--upto") upto = atol(v); else if (a == "--out") out = v; else if (a == "--cases") casef = v; else if (a == "--timeout") TMO = atol(v);
    else { fprintf(stderr, "bad arg %s\n", a.c_str()); return 2; }
  }
  std::vector<std::vector<std::string>> cases;
  if (casef) { std::ifstream f(casef); std::string l, t; while (std::getline(f, l)) { std::istringstream is(l); cases.emplace_back(); while (is >> t) cases.back().push_back(t); } n = cases.size(); }
  if (n < 0) n = THE_SUITE.ncases(deep);
  SH = (Shared*)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  int fd = open(out, O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0644);
  if (fd < 0) { perror(out); return 2; }
  OUT = fdopen(fd, "a");
  long start = only >= 0 ? only : shard, stop = only >= 0 ? only + 1 : upto >= 0 ? upto + 1 : n, step = only >= 0 ? 1 : nshards;
  SH->cur = start; SH->open = 0; SH->done = 0; SH->nev = 0;
  fflush(OUT);
  int hung = 0;
  while (!SH->done && SH->cur < stop && hung < 2) {   // two calls that never return are enough
    pid_t pid = fork();
    if (pid == 0) {
      struct rlimit rl; rl.rlim_cur = rl.rlim_max = 4UL << 30; setrlimit(RLIMIT_AS, &rl);
      rl.rlim_cur = rl.rlim_max = 0; setrlimit(RLIMIT_CORE, &rl);
      int nul = open("/dev/null", O_WRONLY); if (!getenv("DRV_VERBOSE")) dup2(nul, 2);
      if (!getenv("DRV_VERBOSE")) dup2(nul, 1);
      for (long i = SH->cur; i < stop; i += step) {
        SH->cur = i; SH->open = 0;
        Ctx c; c.r = Rng(hash3(seed, i, THE_SUITE.name)); c.idx = i; c.deep = deep; c.nev = 0; if (casef) c.tok = cases[i];
        arm(TMO);
        THE_SUITE.run(c);
      }
      SH->done = 1; fflush(OUT); _exit(0);
    }
    int st; waitpid(pid, &st, 0);
    if (SH->done) break;
    const char* why = "died";
    char b[64];
    if (WIFSIGNALED(st)) { if (WTERMSIG(st) == SIGPROF) { why = "timeout"; hung++; } else { snprintf(b, sizeof b, "crash signal %d", WTERMSIG(st)); why = b; } }
    else { snprintf(b, sizeof b, "exit %d", WEXITSTATUS(st)); why = b; }
    std::string s;
    if (!SH->open) { s = "{\"op\":\"outside\",\"i\":" + std::to_string((long)SH->cur); }
    s += ",\"st\":\""; s += why; s += "\"}\n";
    if (write(fd, s.data(), s.size()) < 0) return 2;
    SH->open = 0; SH->cur += step;
  }
  printf("events %ld\n", (long)SH->nev);
  return 0;
}
