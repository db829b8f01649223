// Trace driver core: deterministic case generation, serialisation of NTL
// values, event log (one JSON line per API call) and crash/timeout isolation.
#pragma once
#include <NTL/lzz_p.h>
#include <NTL/lzz_pX.h>
#include <NTL/vec_lzz_p.h>
#include <NTL/mat_lzz_p.h>
#include <NTL/matrix.h>
#include <NTL/vector.h>
#include <NTL/ZZ.h>
#include <string>
#include <vector>
#include <functional>
#include <utility>
#include <memory>
#include "util.h"
NTL_CLIENT
namespace PML {}
using namespace PML;

struct Rng {                       // splitmix64
  unsigned long s;
  explicit Rng(unsigned long x = 0) : s(x) {}
  unsigned long next() {
    unsigned long z = (s += 0x9E3779B97F4A7C15UL);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9UL;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBUL;
    return z ^ (z >> 31);
  }
  // uniform on [a,b], except that on wide ranges of sizes one draw in five is a power of two (+-1) or an
  // end of the range: thresholds and transform lengths sit there
  long in(long a, long b) {
    if (b <= a) return a;
    if (a >= 0 && b - a >= 16 && b <= 100000 && next() % 5 == 0) {
      long k = 1; for (unsigned long e = next() % 17; e; e--) k *= 2;
      k += (long)(next() % 3) - 1;
      if (k >= a && k <= b) return k;
      k = next() % 6; if (k < 2) return k ? b : a;
    }
    return a + (long)(next() % (unsigned long)(b - a + 1));
  }
  bool one(long k) { return next() % (unsigned long)k == 0; }
  long pick(const std::vector<long>& v) { return v[next() % v.size()]; }
};

// ------------------------------------------------------------ serialisation
struct Big { long v; explicit Big(long x) : v(x) {} };   // a long beyond 32 bits: [hi,lo]
bool wide_mod();
void ser(std::string& o, long x);
void ser(std::string& o, const Big& x);
void ser(std::string& o, bool x);
inline void ser(std::string& o, int x) { ser(o, (long)x); }
inline void ser(std::string& o, unsigned long x) { ser(o, (long)x); }
void ser(std::string& o, const std::string& x);
void ser(std::string& o, const char* x);
void ser(std::string& o, const zz_p& x);
void ser(std::string& o, const zz_pX& x);
template <class T> void ser_mat(std::string& o, const Mat<T>& m) {
  o += "{\"r\":"; ser(o, (long)m.NumRows()); o += ",\"c\":"; ser(o, (long)m.NumCols()); o += ",\"e\":[";
  for (long i = 0; i < m.NumRows(); i++) {
    o += i ? ",[" : "[";
    for (long j = 0; j < m.NumCols(); j++) { if (j) o += ','; ser(o, m[i][j]); }
    o += ']';
  }
  o += "]}";
}
template <class T> void ser(std::string& o, const Mat<T>& m) { ser_mat(o, m); }
template <class T> void ser(std::string& o, const Vec<T>& v) {
  o += '['; for (long i = 0; i < v.length(); i++) { if (i) o += ','; ser(o, v[i]); } o += ']';
}
template <class T> void ser(std::string& o, const std::vector<T>& v) {
  o += '['; for (size_t i = 0; i < v.size(); i++) { if (i) o += ','; ser(o, (T)v[i]); } o += ']';
}
template <class A, class B> void ser(std::string& o, const std::pair<A, B>& p) { o += '['; ser(o, p.first); o += ','; ser(o, p.second); o += ']'; }

// ------------------------------------------------------------------- events
struct Ctx {
  Rng r;
  Rng* pr = nullptr;              // if set, the stream that primes (and NTL's generator) are drawn from
  Rng& P() { return pr ? *pr : r; }
  long idx;                       // case number
  bool deep;                      // thorough tier
  std::vector<std::string> tok;   // model-generated case (tokens), empty otherwise
  std::string buf;                // fields of the current event
  std::vector<std::pair<std::string, std::function<std::string()>>> frame;
  long nev;
  void modulus(long p);           // logs the modulus event (modulus already set)
  void op(const char* name);      // start an event
  template <class T> void val(const char* k, const T& x) { buf += ",\""; buf += k; buf += "\":"; ser(buf, x); }
  // an input that the call must leave unchanged
  template <class T> void in(const char* k, const T& x) {
    val(k, x);
    std::string s; ser(s, x);
    frame.push_back(std::make_pair(s, std::function<std::string()>([&x]() { std::string t; ser(t, x); return t; })));
  }
  void call();                    // flush inputs, arm the timer: the call comes next
  void ret();                     // the call returned: checks the frame, logs modulus
  template <class T> void out(const char* k, const T& x) { val(k, x); }
  void end();                     // close the event

  // generators (all from this->r)
  long prime();                   // any class; sets zz_p and logs the event; returns p
  long prime_cls(int cls);
  long prime_of(const std::vector<int>& classes) { return prime_cls(classes[P().in(0, (long)classes.size() - 1)]); }
  long prime_min(long lo);        // like prime() but p >= lo
  void set_p(long p);
  long prime_crt(long terms);     // a prime where `terms` products of residues just (do not) fit in 1 or 2 FFT primes
  zz_p elt();                     // random element with extremes
  zz_p nzelt();
  zz_pX poly(long d);             // degree <= d, various profiles
  zz_pX poly_exact(long d);       // degree exactly d (d>=0)
  zz_pX dense(long d);            // uniformly random, length d+1 (may be lower)
  Vec<zz_p> vec(long n);
  Vec<zz_pX> pvec(long n, long d);
  Mat<zz_p> mat(long m, long n);
  Mat<zz_p> mat_dep(long m, long n);            // sparse with dependent rows
  Mat<zz_p> mat_rank(long m, long n, long k);
  Mat<zz_p> inv_mat(long n);
  Mat<zz_pX> pmat(long m, long n, long d);      // degree <= d, many profiles
  Mat<zz_pX> pmat_max(long m, long n, long d);  // all coefficients p-1
  Mat<zz_pX> pmat_dense(long m, long n, long d);
  Mat<zz_pX> pmat_rank(long m, long n, long d, long k);
  Mat<zz_pX> pmat_nonsing(long n, long d);
  Mat<zz_pX> pmat_invct(long n, long d);        // invertible constant term
  std::vector<long> shift(long n, long amp);
};

// a case exported by Small.tla: sets the field, then the data
struct Small {
  long p, m, n, len, k, r2, c2, len2; std::vector<long> s; Mat<zz_pX> F, G;
  bool hp = false; std::vector<long> ord, pred;      // OrderBasis: orders and predicted degrees
  explicit Small(Ctx& c);
};
struct Suite { const char* name; void (*run)(Ctx&); long (*ncases)(bool deep); };
extern Suite THE_SUITE;

// prime classes
enum { P2, PTINY, PSMALL, P16, P24, P30, P45, P59, P60, PFFT, PUFFT, PLOW, NCLS };

// output capture of stdout for printing routines
std::string capture_stdout(const std::function<void()>& f);
Mat<zz_pX> naive_mul(const Mat<zz_pX>& a, const Mat<zz_pX>& b);
