// Generators of structured matrices shared by the suites C15 and C16.
#pragma once
#include "core.h"
#include "lzz_p_extra.h"
#include "structured_lzz_p.h"
inline zz_p gratio(Ctx& c, long n) {     // an element with n distinct powers, or 0
  long p = zz_p::modulus();
  for (long t = 0; t < 60; t++) {
    zz_p a = (p < 1000 || c.r.one(3)) ? to_zz_p(c.r.in(1, p - 1)) : c.nzelt(); if (a == 0) continue;
    zz_p x = to_zz_p(1); bool ok = true; for (long i = 1; i < n; i++) { x *= a; if (x == 1) { ok = false; break; } }
    if (ok) return a;
  }
  return to_zz_p(0);
}
// u, v, rho with u rho^i != v rho^j for i < m, j < n and distinct powers; false if none found
inline bool cauchy_params(Ctx& c, zz_p& u, zz_p& v, zz_p& rho, long m, long n) {
  rho = gratio(c, std::max(m, n)); if (rho == 0) return false;
  for (long t = 0; t < 40; t++) {
    u = c.r.one(3) ? to_zz_p(1) : c.nzelt(); v = c.nzelt(); if (u == 0 || v == 0) continue;
    zz_p irho = 1 / rho, x = v; bool ok = true;           // u/v outside rho^(j-i)
    for (long k = 0; k < n && ok; k++) { if (x == u) ok = false; x *= rho; }
    x = v; for (long k = 0; k < m && ok; k++) { if (x == u) ok = false; x *= irho; }
    if (ok) return true;
  }
  return false;
}
inline std::vector<long> parts(Ctx& c, long k, long mx) { std::vector<long> v; for (long i = 0; i < k; i++) v.push_back(c.r.one(3) ? 1 : c.r.in(1, mx)); return v; }
template <class T> Vec<Vec<T>> blocks(Ctx& c, const std::vector<long>& rs, const std::vector<long>& cs, Vec<Vec<Vec<zz_p>>>& d) {
  Vec<Vec<T>> b; b.SetLength(rs.size()); d.SetLength(rs.size());
  bool zero = c.r.one(6);
  for (size_t i = 0; i < rs.size(); i++) {
    b[i].SetLength(cs.size()); d[i].SetLength(cs.size());
    for (size_t j = 0; j < cs.size(); j++) { d[i][j] = c.vec(rs[i] + cs[j] - 1); if (zero && c.r.one(2)) clear(d[i][j]); b[i][j] = T(d[i][j], rs[i], cs[j]); }
  }
  return b;
}
