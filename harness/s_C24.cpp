// C24: text written for Magma and Sage.
#include "core.h"
#include <sstream>
#include <NTL/ZZX.h>
#include <magma_output.h>
#include <sage_output.h>
using namespace NTL; using namespace PML;
static std::string digits(const std::string& s) { std::string o = "["; size_t i = 0; while (i + 1 < s.size() && s[i] == '0') i++; for (size_t k = i; k < s.size(); k++) { if (k > i) o += ','; o += s[k]; } return o + "]"; }
static std::string tokens(const std::string& s, bool& nl) {
  std::string o; size_t i = 0; nl = !s.empty() && s.back() == '\n';
  auto put = [&](const char* t, const std::string& v, const std::string& d) { o += o.empty() ? "[" : ","; o += std::string("{\"t\":\"") + t + "\",\"v\":\"" + v + "\",\"d\":" + d + "}"; };
  while (i < s.size()) {
    unsigned char ch = s[i]; size_t j = i + 1;
    if (isspace(ch)) { i++; continue; }
    if (isdigit(ch)) { while (j < s.size() && isdigit((unsigned char)s[j])) j++; put("n", "", digits(s.substr(i, j - i))); }
    else if (isalpha(ch) || ch == '_') { while (j < s.size() && (isalnum((unsigned char)s[j]) || s[j] == '_')) j++; put("i", s.substr(i, j - i), "[]"); }
    else { if (ch == ':' && j < s.size() && s[j] == '=') j++; std::string v = s.substr(i, j - i); if (v == "\"" || v == "\\" || ch < 32 || ch > 126) v = "?"; put("s", v, "[]"); }
    i = j;
  }
  return o.empty() ? "[]" : o + "]";
}
static std::string zser(const ZZ& z) { std::ostringstream os; os << abs(z); return std::string("{\"s\":") + (sign(z) < 0 ? "true" : "false") + ",\"d\":" + digits(os.str()) + "}"; }
static ZZ zint(Ctx& c) { ZZ a; switch (c.r.in(0, 5)) { case 0: break; case 1: a = c.r.in(-3, 3); break; case 2: a = c.r.in(-1000, 1000); break; case 3: a = (long)c.r.next(); break; default: a = to_ZZ((long)c.r.next()) * (long)(c.r.next() >> c.r.in(8, 60)); } return a; }
static const char* NAMES[] = {"a", "M_1", "res", "v0", "f"};
static const char* VARS[] = {"x", "y", "t1", "XX", "z_"};
template <class T, class MO, class SO> static void emit(Ctx& c, const char* kind, bool mg, bool as, const std::string& name, const std::string& var, const T& body, MO m, SO s) {
  bool nl; c.op("tx.val"); c.val("kind", kind); c.val("lang", mg ? "magma" : "sage"); c.val("assign", as); c.val("name", name); c.val("var", var); c.buf += ",\"pd\":" + digits(std::to_string(zz_p::modulus())); body(); c.call();
  std::string t = capture_stdout([&]() { mg ? m() : s(); }); c.ret(); c.buf += ",\"tok\":" + tokens(t, nl); c.out("nl", nl); c.end();
}
template <class T> static void scal(Ctx& c, const char* kind, const T& v, const std::function<void()>& body) {      // no indeterminate
  bool mg = c.r.one(2), as = c.r.one(2); std::string name = NAMES[c.r.in(0, 4)];
  emit(c, kind, mg, as, name, "x", body, [&]() { as ? magma_assign(v, name) : magma_output(v); }, [&]() { as ? sage_assign(v, name) : sage_output(v); });
}
template <class T> static void ply(Ctx& c, const char* kind, const char* def, const T& v, const std::function<void()>& body) {
  bool mg = c.r.one(2), as = c.r.one(2), dv = c.r.one(2); std::string name = NAMES[c.r.in(0, 4)], var = dv ? def : VARS[c.r.in(0, 4)];
  emit(c, kind, mg, as, name, var, body, [&]() { dv ? (as ? magma_assign(v, name) : magma_output(v)) : as ? magma_assign(v, var, name) : magma_output(v, var); },
       [&]() { dv ? (as ? sage_assign(v, name) : sage_output(v)) : as ? sage_assign(v, var, name) : sage_output(v, var); });
}
// exhaustive small scopes: all small matrices, their rows and entries
static void small(Ctx& c) {
  Small S(c); const Mat<zz_pX>& f = S.F; Vec<zz_pX> v = f[0]; zz_pX e = v[0]; Mat<zz_p> m; m.SetDims(S.m, S.n); for (long i = 0; i < S.m; i++) for (long j = 0; j < S.n; j++) m[i][j] = coeff(f[i][j], 0); Vec<zz_p> w = m[0];
  ply(c, "pmat", "x", f, [&]() { c.in("x", f); }); ply(c, "pvec", "x", v, [&]() { c.in("x", v); }); ply(c, "poly", "x", e, [&]() { c.in("x", e); });
  scal(c, "mat", m, [&]() { c.in("x", m); }); scal(c, "vec", w, [&]() { c.in("x", w); });
}
static void run(Ctx& c) {
  if (!c.tok.empty()) { small(c); return; }
  c.prime(); bool lg = c.r.one(12); long n = lg ? c.r.in(9, 140) : c.r.in(0, 8), d = lg ? c.r.in(8, 140) : c.r.in(-1, 7), q = lg ? c.r.in(5, 17) : 4;
  switch (c.r.in(0, 9)) {
    case 0: { Vec<ZZ> v; v.SetLength(n); for (long i = 0; i < n; i++) v[i] = zint(c); scal(c, "zvec", v, [&]() { c.buf += ",\"x\":["; for (long i = 0; i < n; i++) c.buf += (i ? "," : "") + zser(v[i]); c.buf += "]"; }); } break;
    case 1: { Vec<long> v; v.SetLength(n); for (long i = 0; i < n; i++) v[i] = c.r.one(4) ? (long)(1UL << 63) : c.r.one(2) ? c.r.in(-9, 9) : (long)c.r.next(); scal(c, "zvec", v, [&]() { c.buf += ",\"x\":["; for (long i = 0; i < n; i++) c.buf += (i ? "," : "") + zser(to_ZZ(v[i])); c.buf += "]"; }); } break;
    case 2: { Vec<unsigned long> v; v.SetLength(n); for (long i = 0; i < n; i++) v[i] = c.r.one(4) ? ~0UL : c.r.one(2) ? c.r.in(0, 9) : c.r.next(); scal(c, "zvec", v, [&]() { c.buf += ",\"x\":["; for (long i = 0; i < n; i++) c.buf += (i ? "," : "") + zser(to_ZZ(v[i])); c.buf += "]"; }); } break;
    case 3: { Vec<zz_p> v = c.vec(n); scal(c, "vec", v, [&]() { c.in("x", v); }); } break;
    case 4: { Mat<zz_p> v = c.mat(c.r.in(1, q), c.r.in(1, q)); scal(c, "mat", v, [&]() { c.in("x", v); }); } break;
    case 5: { ZZX f; for (long i = 0; i <= d; i++) SetCoeff(f, i, zint(c)); ply(c, "zpoly", "XX", f, [&]() { c.buf += ",\"x\":["; for (long i = 0; i <= deg(f); i++) c.buf += (i ? "," : "") + zser(coeff(f, i)); c.buf += "]"; }); } break;
    case 6: { zz_pX f = c.poly(d); ply(c, "poly", "x", f, [&]() { c.in("x", f); }); } break;
    case 7: { Vec<zz_pX> f = c.pvec(c.r.in(0, q), lg ? d % 20 : d); ply(c, "pvec", "x", f, [&]() { c.in("x", f); }); } break;
    case 8: { Mat<zz_pX> f = c.pmat(c.r.in(1, q - 1), c.r.in(1, q - 1), lg ? d % 12 : d); ply(c, "pmat", "x", f, [&]() { c.in("x", f); }); } break;
    default: { long k = c.r.in(0, 2); bool mg = c.r.one(2), nl; c.op("tx.init"); c.val("kind", k == 0 ? "k" : k == 1 ? "U" : "UZ"); c.val("lang", mg ? "magma" : "sage"); c.buf += ",\"pd\":" + digits(std::to_string(zz_p::modulus())); c.call();
      std::string t = capture_stdout([&]() { if (mg) k == 0 ? magma_init() : k == 1 ? magma_init_X() : magma_init_ZZX(); else k == 0 ? sage_init() : k == 1 ? sage_init_X() : sage_init_ZZX(); }); c.ret(); c.buf += ",\"tok\":" + tokens(t, nl); c.out("nl", nl); c.end(); }
  }
}
static long ncases(bool deep) { return deep ? 40000 : 4000; }
Suite THE_SUITE = {"C24", run, ncases};
