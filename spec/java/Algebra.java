// Compiled replacements for operators of Algebra.tla (loaded by TLC because the
// class has the module's name).  Each method computes the function the TLA+
// definition of the same name defines; AlgebraEquiv.tla compares the two.
import tlc2.value.impl.*;
import tlc2.tool.EvalControl;
import java.math.BigInteger;
import java.util.*;

public class Algebra {
  static final long B30 = 1L << 30;

  // ---------------------------------------------------------------- field
  static final class F {
    final long p; final boolean wide, small, mont; long ninv, r2;
    F(Value pv) {
      TupleValue t = (TupleValue) pv.toTuple();
      wide = t.elems.length == 2;
      p = wide ? iv(t.elems[0]) * B30 + iv(t.elems[1]) : iv(t.elems[0]);
      small = p < (1L << 31);
      mont = !small && (p & 1) == 1;
      if (mont) {
        long x = p;                       // Newton: inverse of p mod 2^64
        for (int i = 0; i < 6; i++) x *= 2 - p * x;
        ninv = -x;
        r2 = BigInteger.ONE.shiftLeft(128).mod(BigInteger.valueOf(p)).longValue();
      }
    }
    long add(long a, long b) { long s = a + b; return s >= p ? s - p : s; }
    long sub(long a, long b) { long s = a - b; return s < 0 ? s + p : s; }
    long neg(long a) { return a == 0 ? 0 : p - a; }
    long redc(long a, long b) {
      long hi = Math.multiplyHigh(a, b), lo = a * b, m = lo * ninv;
      long t = hi + Math.multiplyHigh(m, p) + ((m >> 63) & p) + (lo != 0 ? 1 : 0);
      return t >= p ? t - p : t;
    }
    long mul(long a, long b) {
      if (small) return (a * b) % p;
      if (mont) return redc(redc(a, b), r2);
      return BigInteger.valueOf(a).multiply(BigInteger.valueOf(b)).mod(BigInteger.valueOf(p)).longValue();
    }
    long pow(long a, long n) { long r = 1 % p; while (n > 0) { if ((n & 1) == 1) r = mul(r, a); a = mul(a, a); n >>= 1; } return r; }
    long inv(long a) { return p == 2 ? a : pow(a, p - 2); }
    long ofInt(long n) { n %= p; return n < 0 ? n + p : n; }

    long[] norm(long[] f) { int n = f.length; while (n > 0 && f[n - 1] == 0) n--; return n == f.length ? f : Arrays.copyOf(f, n); }
    long[] padd(long[] f, long[] g) {
      int n = Math.max(f.length, g.length); long[] h = new long[n];
      for (int i = 0; i < n; i++) h[i] = add(i < f.length ? f[i] : 0, i < g.length ? g[i] : 0);
      return norm(h);
    }
    long[] pneg(long[] f) { long[] h = new long[f.length]; for (int i = 0; i < f.length; i++) h[i] = neg(f[i]); return h; }
    long[] psub(long[] f, long[] g) { return padd(f, pneg(g)); }
    long[] pscale(long a, long[] f) { long[] h = new long[f.length]; for (int i = 0; i < f.length; i++) h[i] = mul(a, f[i]); return norm(h); }
    long[] rawmul(long[] f, long[] g) {
      if (f.length == 0 || g.length == 0) return new long[0];
      if (Math.min(f.length, g.length) > 48) return kar(f, g);
      long[] h = new long[f.length + g.length - 1];
      if (small) {
        for (int i = 0; i < f.length; i++) { long a = f[i]; if (a == 0) continue;
          for (int j = 0; j < g.length; j++) h[i + j] = (h[i + j] + a * g[j]) % p; }
      } else if (mont) {
        for (int i = 0; i < f.length; i++) { long a = f[i]; if (a == 0) continue; a = redc(a, r2);
          for (int j = 0; j < g.length; j++) { long s = h[i + j] + redc(a, g[j]); h[i + j] = s >= p ? s - p : s; } }
      } else
        for (int i = 0; i < f.length; i++) for (int j = 0; j < g.length; j++) h[i + j] = add(h[i + j], mul(f[i], g[j]));
      return h;
    }
    long[] kar(long[] f, long[] g) {
      int k = Math.max(f.length, g.length) / 2;
      long[] f0 = Arrays.copyOf(f, Math.min(k, f.length)), f1 = f.length > k ? Arrays.copyOfRange(f, k, f.length) : new long[0];
      long[] g0 = Arrays.copyOf(g, Math.min(k, g.length)), g1 = g.length > k ? Arrays.copyOfRange(g, k, g.length) : new long[0];
      long[] h = new long[f.length + g.length - 1];
      if (f1.length == 0 || g1.length == 0) {
        long[] a = rawmul(f0, g0); acc(h, a, 0, false);
        if (f1.length > 0) acc(h, rawmul(f1, g0), k, false);
        if (g1.length > 0) acc(h, rawmul(f0, g1), k, false);
        return h;
      }
      long[] a = rawmul(f0, g0), b = rawmul(f1, g1), c = rawmul(rawadd(f0, f1), rawadd(g0, g1));
      acc(c, a, 0, true); acc(c, b, 0, true);
      acc(h, a, 0, false); acc(h, c, k, false); acc(h, b, 2 * k, false);
      return h;
    }
    long[] rawadd(long[] f, long[] g) {
      long[] h = new long[Math.max(f.length, g.length)];
      for (int i = 0; i < h.length; i++) h[i] = add(i < f.length ? f[i] : 0, i < g.length ? g[i] : 0);
      return h;
    }
    void acc(long[] h, long[] a, int off, boolean minus) {
      for (int i = 0; i < a.length; i++) { if (i + off >= h.length) break;
        h[i + off] = minus ? sub(h[i + off], a[i]) : add(h[i + off], a[i]); }
    }
    long[] pmul(long[] f, long[] g) { return norm(rawmul(f, g)); }
    long peval(long[] f, long a) {
      long r = 0;
      if (mont) { long am = redc(a, r2); for (int i = f.length - 1; i >= 0; i--) r = add(redc(r, am), f[i]); return r; }
      for (int i = f.length - 1; i >= 0; i--) r = add(mul(r, a), f[i]);
      return r;
    }
    long[][] pdivrem(long[] f, long[] g) {
      long[] r = f.clone(); int n = g.length; long li = inv(g[n - 1]);
      long[] q = new long[Math.max(0, f.length - n + 1)];
      for (int i = f.length - 1; i >= n - 1; i--) {
        long c = mul(r[i], li); q[i - n + 1] = c; if (c == 0) continue;
        for (int j = 0; j < n; j++) r[i - n + 1 + j] = sub(r[i - n + 1 + j], mul(c, g[j]));
      }
      return new long[][]{norm(q), norm(r)};
    }
    long[] prem(long[] f, long[] g) { return f.length < g.length ? f : pdivrem(f, g)[1]; }
    long[] pmonic(long[] f) { return f.length == 0 ? f : pscale(inv(f[f.length - 1]), f); }
    long[] pgcd(long[] f, long[] g) { while (g.length > 0) { long[] t = prem(f, g); f = g; g = t; } return pmonic(f); }
    int rank(long[][] a, int c) {
      int r = 0, m = a.length;
      for (int j = 0; j < c && r < m; j++) {
        int k = r; while (k < m && a[k][j] == 0) k++;
        if (k == m) continue;
        long[] t = a[k]; a[k] = a[r]; a[r] = t;
        long iv = inv(a[r][j]);
        for (int i = r + 1; i < m; i++) if (a[i][j] != 0) {
          long f = mul(a[i][j], iv); long[] ai = a[i], ar = a[r];
          if (mont) { long fm = redc(f, r2); for (int l = j; l < c; l++) if (ar[l] != 0) ai[l] = sub(ai[l], redc(fm, ar[l])); }
          else for (int l = j; l < c; l++) if (ar[l] != 0) ai[l] = sub(ai[l], mul(f, ar[l]));
        }
        r++;
      }
      return r;
    }
    long det(long[][] a) {
      int n = a.length; long d = 1 % p;
      for (int j = 0; j < n; j++) {
        int k = j; while (k < n && a[k][j] == 0) k++;
        if (k == n) return 0;
        if (k != j) { long[] t = a[k]; a[k] = a[j]; a[j] = t; d = neg(d); }
        d = mul(d, a[j][j]); long iv = inv(a[j][j]);
        for (int i = j + 1; i < n; i++) if (a[i][j] != 0) {
          long f = mul(a[i][j], iv);
          for (int l = j; l < n; l++) a[i][l] = sub(a[i][l], mul(f, a[j][l]));
        }
      }
      return d;
    }
    long[][] meval(long[][][] A, int r, int c, long a) {
      long[][] m = new long[r][c];
      for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) m[i][j] = peval(A[i][j], a);
      return m;
    }
    long[] pmdet(long[][][] A) {
      int n = A.length; if (n == 0) return norm(new long[]{1 % p});
      long rb = 0, cb = 0; boolean z = false;
      for (int i = 0; i < n; i++) { int a = -1, b = -1; for (int j = 0; j < n; j++) { a = Math.max(a, A[i][j].length - 1); b = Math.max(b, A[j][i].length - 1); }
        if (a < 0 || b < 0) z = true; rb += a; cb += b; }
      if (z) return new long[0];
      int D = (int) Math.min(rb, cb);
      if (p > D + 1 && n > 1) {          // evaluation at 0..D, Newton interpolation
        long[] v = new long[D + 1];
        for (int k = 0; k <= D; k++) v[k] = det(meval(A, n, n, k));
        for (int s = 1; s <= D; s++) { long iv = inv(s); for (int k = D; k >= s; k--) v[k] = mul(sub(v[k], v[k - 1]), iv); }
        long[] f = new long[0];
        for (int k = D; k >= 0; k--) f = padd(pmul(f, norm(new long[]{neg(k), 1})), norm(new long[]{v[k]}));
        return f;
      }
      // dynamic programming over column subsets
      HashMap<Integer, long[]> cur = new HashMap<>(); cur.put(0, norm(new long[]{1 % p}));
      for (int i = 0; i < n; i++) {
        HashMap<Integer, long[]> nx = new HashMap<>();
        for (Map.Entry<Integer, long[]> e : cur.entrySet()) for (int j = 0; j < n; j++) {
          if ((e.getKey() >> j & 1) == 1 || A[i][j].length == 0) continue;
          long[] t = pmul(e.getValue(), A[i][j]);
          if ((Integer.bitCount(e.getKey() >> (j + 1)) & 1) == 1) t = pneg(t);
          int key = e.getKey() | 1 << j; long[] o = nx.get(key);
          nx.put(key, o == null ? t : padd(o, t));
        }
        cur = nx;
      }
      long[] r = cur.get((1 << n) - 1); return r == null ? new long[0] : r;
    }
    int pmrank(long[][][] A, int m, int n) {
      if (m == 0 || n == 0) return 0;
      if (p >= (1L << 30)) {
        int best = 0; long x = 123456789L % p;
        for (int t = 0; t < 4; t++) { x = add(mul(x, 1103515245L % p), 12345L % p); best = Math.max(best, rank(meval(A, m, n, x), n)); }
        return best;
      }
      long[][][] a = new long[m][n][]; for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) a[i][j] = A[i][j];
      long[] prev = {1}; int r = 0;                        // Bareiss over K[x]
      for (int j = 0; j < n && r < m; j++) {
        int k = -1; for (int i = r; i < m; i++) if (a[i][j].length > 0 && (k < 0 || a[i][j].length < a[k][j].length)) k = i;
        if (k < 0) continue;
        long[][] t = a[k]; a[k] = a[r]; a[r] = t;
        for (int i = r + 1; i < m; i++) {
          for (int l = j + 1; l < n; l++) {
            long[] x = psub(pmul(a[r][j], a[i][l]), pmul(a[i][j], a[r][l]));
            a[i][l] = x.length == 0 ? x : pdivrem(x, prev)[0];
          }
          a[i][j] = new long[0];
        }
        prev = a[r][j]; r++;
      }
      return r;
    }
  }

  // ------------------------------------------------------------ conversion
  static int iv(Value v) { return ((IntValue) v).val; }
  static Value[] el(Value v) { return ((TupleValue) v.toTuple()).elems; }
  static final StringValue SR = new StringValue("r"), SC = new StringValue("c"), SE = new StringValue("e");
  static Value fld(Value v, StringValue s) { return ((RecordValue) v.toRcd()).apply(s, EvalControl.Clear); }
  static long elt(F f, Value v) { if (!f.wide) return iv(v); Value[] e = el(v); return iv(e[0]) * B30 + iv(e[1]); }
  static Value mk(F f, long a) {
    return f.wide ? new TupleValue(IntValue.gen((int) (a >> 30)), IntValue.gen((int) (a & (B30 - 1)))) : IntValue.gen((int) a);
  }
  static long[] vec(F f, Value v) { Value[] e = el(v); long[] r = new long[e.length]; for (int i = 0; i < r.length; i++) r[i] = elt(f, e[i]); return r; }
  static long[] poly(F f, Value v) { return f.norm(vec(f, v)); }
  static Value mkv(F f, long[] a) { Value[] e = new Value[a.length]; for (int i = 0; i < e.length; i++) e[i] = mk(f, a[i]); return new TupleValue(e); }
  static long[][] mat(F f, Value v) { Value[] e = el(fld(v, SE)); long[][] r = new long[e.length][]; for (int i = 0; i < r.length; i++) r[i] = vec(f, e[i]); return r; }
  static long[][][] pmat(F f, Value v) {
    Value[] e = el(fld(v, SE)); long[][][] r = new long[e.length][][];
    for (int i = 0; i < r.length; i++) { Value[] w = el(e[i]); r[i] = new long[w.length][]; for (int j = 0; j < w.length; j++) r[i][j] = poly(f, w[j]); }
    return r;
  }
  static int rows(Value v) { return iv(fld(v, SR)); }
  static int cols(Value v) { return iv(fld(v, SC)); }
  static Value rec(int r, int c, Value e) {
    return new RecordValue(new util.UniqueString[]{SR.val, SC.val, SE.val}, new Value[]{IntValue.gen(r), IntValue.gen(c), e}, false);
  }
  static Value mkm(F f, int r, int c, long[][] a) { Value[] e = new Value[r]; for (int i = 0; i < r; i++) e[i] = mkv(f, a[i]); return rec(r, c, new TupleValue(e)); }
  static Value mkp(F f, int r, int c, long[][][] a) {
    Value[] e = new Value[r];
    for (int i = 0; i < r; i++) { Value[] w = new Value[c]; for (int j = 0; j < c; j++) w[j] = mkv(f, a[i][j]); e[i] = new TupleValue(w); }
    return rec(r, c, new TupleValue(e));
  }
  static Value bool(boolean b) { return b ? BoolValue.ValTrue : BoolValue.ValFalse; }

  // ------------------------------------------------------- shape predicates
  static boolean isInt(Value v) { return v instanceof IntValue; }
  static Value[] tup(Value v) { Value t = v.toTuple(); return t == null ? null : ((TupleValue) t).elems; }
  static boolean isElt(F f, Value v) {
    if (!f.wide) return isInt(v) && iv(v) >= 0 && iv(v) < f.p;
    Value[] e = tup(v); if (e == null || e.length != 2 || !isInt(e[0]) || !isInt(e[1])) return false;
    long a = iv(e[0]), b = iv(e[1]); return a >= 0 && b >= 0 && b < B30 && a * B30 + b < f.p;
  }
  static boolean isVec(F f, Value v, int n) {
    Value[] e = tup(v); if (e == null || (n >= 0 && e.length != n)) return false;
    for (Value x : e) if (!isElt(f, x)) return false; return true;
  }
  static boolean isPoly(F f, Value v) {
    if (!isVec(f, v, -1)) return false; Value[] e = tup(v);
    return e.length == 0 || elt(f, e[e.length - 1]) != 0;
  }
  static boolean isMat(F f, Value M, int r, int c, boolean polys) {
    if (rows(M) != r || cols(M) != c) return false;
    Value[] e = tup(fld(M, SE)); if (e == null || e.length != r) return false;
    for (Value row : e) { Value[] w = tup(row); if (w == null || w.length != c) return false;
      for (Value x : w) if (!(polys ? isPoly(f, x) : isElt(f, x))) return false; }
    return true;
  }
  public static Value IsElt(Value p, Value a) { return bool(isElt(new F(p), a)); }
  public static Value IsPoly(Value p, Value a) { return bool(isPoly(new F(p), a)); }
  public static Value IsVec(Value p, Value v, Value n) { return bool(isVec(new F(p), v, iv(n))); }
  public static Value IsPVec(Value p, Value v, Value n) {
    F f = new F(p); Value[] e = tup(v); if (e == null || e.length != iv(n)) return bool(false);
    for (Value x : e) if (!isPoly(f, x)) return bool(false); return bool(true);
  }
  public static Value IsMat(Value p, Value M, Value r, Value c) { return bool(isMat(new F(p), M, iv(r), iv(c), false)); }
  public static Value IsPMat(Value p, Value M, Value r, Value c) { return bool(isMat(new F(p), M, iv(r), iv(c), true)); }

  // ---------------------------------------------------------------- field
  public static Value FAdd(Value p, Value a, Value b) { F f = new F(p); return mk(f, f.add(elt(f, a), elt(f, b))); }
  public static Value FSub(Value p, Value a, Value b) { F f = new F(p); return mk(f, f.sub(elt(f, a), elt(f, b))); }
  public static Value FNeg(Value p, Value a) { F f = new F(p); return mk(f, f.neg(elt(f, a))); }
  public static Value FMul(Value p, Value a, Value b) { F f = new F(p); return mk(f, f.mul(elt(f, a), elt(f, b))); }
  public static Value FInv(Value p, Value a) { F f = new F(p); return mk(f, f.inv(elt(f, a))); }
  public static Value FPow(Value p, Value a, Value n) { F f = new F(p); return mk(f, f.pow(elt(f, a), iv(n))); }
  public static Value FInt(Value p, Value n) { F f = new F(p); return mk(f, f.ofInt(iv(n))); }

  // ----------------------------------------------------------- polynomials
  public static Value PNorm(Value p, Value a) { F f = new F(p); return mkv(f, poly(f, a)); }
  public static Value PAdd(Value p, Value a, Value b) { F f = new F(p); return mkv(f, f.padd(vec(f, a), vec(f, b))); }
  public static Value PSub(Value p, Value a, Value b) { F f = new F(p); return mkv(f, f.psub(vec(f, a), vec(f, b))); }
  public static Value PNeg(Value p, Value a) { F f = new F(p); return mkv(f, f.pneg(vec(f, a))); }
  public static Value PScale(Value p, Value a, Value b) { F f = new F(p); return mkv(f, f.pscale(elt(f, a), vec(f, b))); }
  public static Value PMul(Value p, Value a, Value b) { F f = new F(p); return mkv(f, f.pmul(vec(f, a), vec(f, b))); }
  public static Value PEval(Value p, Value a, Value b) { F f = new F(p); return mk(f, f.peval(vec(f, a), elt(f, b))); }
  public static Value PEvals(Value p, Value a, Value pts) {
    F f = new F(p); long[] v = vec(f, a), x = vec(f, pts), r = new long[x.length];
    for (int i = 0; i < x.length; i++) r[i] = f.peval(v, x[i]);
    return mkv(f, r);
  }
  public static Value TEvals(Value p, Value v, Value pts, Value n) {
    F f = new F(p); long[] a = vec(f, v), x = vec(f, pts), r = new long[iv(n)];
    for (int i = 0; i < a.length; i++) { long w = a[i]; for (int j = 0; j < r.length; j++) { r[j] = f.add(r[j], w); w = f.mul(w, x[i]); } }
    return mkv(f, r);
  }
  public static Value PRem(Value p, Value a, Value b) { F f = new F(p); return mkv(f, f.prem(poly(f, a), poly(f, b))); }
  public static Value PMonic(Value p, Value a) { F f = new F(p); return mkv(f, f.pmonic(poly(f, a))); }
  public static Value PGcd(Value p, Value a, Value b) { F f = new F(p); return mkv(f, f.pgcd(poly(f, a), poly(f, b))); }
  static long[] slice(F f, long[] a, int lo, int n) {
    if (n <= 0 || lo >= a.length) return new long[0];
    return f.norm(Arrays.copyOfRange(a, lo, Math.min(a.length, lo + n)));
  }
  public static Value PTrunc(Value p, Value a, Value n) { F f = new F(p); return mkv(f, slice(f, vec(f, a), 0, iv(n))); }
  public static Value PTaylor(Value p, Value a, Value c) {
    F f = new F(p); long[] v = poly(f, a); long s = elt(f, c); long[] r = new long[0];
    long[] x = f.norm(new long[]{s, 1 % f.p});
    for (int i = v.length - 1; i >= 0; i--) r = f.padd(f.pmul(r, x), f.norm(new long[]{v[i]}));
    return mkv(f, r);
  }

  // -------------------------------------------------------------- matrices
  public static Value MMul(Value p, Value A, Value B) {
    F f = new F(p); long[][] a = mat(f, A), b = mat(f, B); int m = rows(A), k = cols(A), n = cols(B); long[][] c = new long[m][n];
    for (int i = 0; i < m; i++) for (int l = 0; l < k; l++) { long x = a[i][l]; if (x == 0) continue;
      for (int j = 0; j < n; j++) c[i][j] = f.add(c[i][j], f.mul(x, b[l][j])); }
    return mkm(f, m, n, c);
  }
  static Value mlin(Value p, Value A, Value B, boolean minus) {
    F f = new F(p); long[][] a = mat(f, A), b = mat(f, B); int m = rows(A), n = cols(A); long[][] c = new long[m][n];
    for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) c[i][j] = minus ? f.sub(a[i][j], b[i][j]) : f.add(a[i][j], b[i][j]);
    return mkm(f, m, n, c);
  }
  public static Value MAdd(Value p, Value A, Value B) { return mlin(p, A, B, false); }
  public static Value MSub(Value p, Value A, Value B) { return mlin(p, A, B, true); }
  public static Value MRank(Value p, Value M) { F f = new F(p); return IntValue.gen(f.rank(mat(f, M), cols(M))); }
  public static Value MDet(Value p, Value M) { F f = new F(p); return mk(f, f.det(mat(f, M))); }

  static long[][][] pmm(F f, long[][][] a, long[][][] b, int m, int k, int n) {
    long[][][] c = new long[m][n][];
    for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) {
      int d = 0; for (int l = 0; l < k; l++) if (a[i][l].length > 0 && b[l][j].length > 0) d = Math.max(d, a[i][l].length + b[l][j].length - 1);
      long[] s = new long[d];
      for (int l = 0; l < k; l++) if (a[i][l].length > 0 && b[l][j].length > 0) f.acc(s, f.rawmul(a[i][l], b[l][j]), 0, false);
      c[i][j] = f.norm(s);
    }
    return c;
  }
  public static Value PMMul(Value p, Value A, Value B) {
    F f = new F(p); return mkp(f, rows(A), cols(B), pmm(f, pmat(f, A), pmat(f, B), rows(A), cols(A), cols(B)));
  }
  public static Value PMMulSlice(Value p, Value A, Value B, Value lo, Value n) {
    F f = new F(p); long[][][] c = pmm(f, pmat(f, A), pmat(f, B), rows(A), cols(A), cols(B));
    for (long[][] r : c) for (int j = 0; j < r.length; j++) r[j] = slice(f, r[j], iv(lo), iv(n));
    return mkp(f, rows(A), cols(B), c);
  }
  public static Value PMMulTrunc(Value p, Value A, Value B, Value n) { return PMMulSlice(p, A, B, IntValue.gen(0), n); }
  static long cost(long[][][] a, long[][][] b) {
    long da = 1, db = 1; for (long[][] r : a) for (long[] x : r) da = Math.max(da, x.length); for (long[][] r : b) for (long[] x : r) db = Math.max(db, x.length);
    return da * db;
  }
  // C = A*B.  Above 2^27 coefficient products, tested on random constant
  // combinations of the columns (error probability below 2^-50).
  public static Value PMMulEq(Value p, Value A, Value B, Value C) {
    F f = new F(p); long[][][] a = pmat(f, A), b = pmat(f, B), c = pmat(f, C);
    int m = rows(A), k = cols(A), n = cols(B);
    if (cost(a, b) * m * k * n <= (1L << 27)) {
      long[][][] d = pmm(f, a, b, m, k, n);
      return bool(Arrays.deepEquals(c, d));
    }
    Random rnd = new Random(42); int trials = (int) Math.ceil(50 / (Math.log(f.p) / Math.log(2)));
    for (int t = 0; t < trials; t++) {
      long[] v = new long[n]; for (int j = 0; j < n; j++) v[j] = Math.floorMod(rnd.nextLong(), f.p);
      long[][][] bv = new long[k][1][], cv = new long[m][1][];
      for (int i = 0; i < k; i++) { bv[i][0] = new long[0]; for (int j = 0; j < n; j++) bv[i][0] = f.padd(bv[i][0], f.pscale(v[j], b[i][j])); }
      for (int i = 0; i < m; i++) { cv[i][0] = new long[0]; for (int j = 0; j < n; j++) cv[i][0] = f.padd(cv[i][0], f.pscale(v[j], c[i][j])); }
      if (!Arrays.deepEquals(pmm(f, a, bv, m, k, 1), cv)) return bool(false);
    }
    return bool(true);
  }
  static Value plin(Value p, Value A, Value B, boolean minus) {
    F f = new F(p); long[][][] a = pmat(f, A), b = pmat(f, B); int m = rows(A), n = cols(A); long[][][] c = new long[m][n][];
    for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) c[i][j] = minus ? f.psub(a[i][j], b[i][j]) : f.padd(a[i][j], b[i][j]);
    return mkp(f, m, n, c);
  }
  public static Value PMAdd(Value p, Value A, Value B) { return plin(p, A, B, false); }
  public static Value PMSub(Value p, Value A, Value B) { return plin(p, A, B, true); }
  public static Value PMSlice(Value p, Value A, Value lo, Value n) {
    F f = new F(p); long[][][] c = pmat(f, A);
    for (long[][] r : c) for (int j = 0; j < r.length; j++) r[j] = slice(f, r[j], iv(lo), iv(n));
    return mkp(f, rows(A), cols(A), c);
  }
  public static Value PMTrunc(Value p, Value A, Value n) { return PMSlice(p, A, IntValue.gen(0), n); }
  public static Value PMCoef(Value p, Value A, Value k) {
    F f = new F(p); long[][][] a = pmat(f, A); int m = rows(A), n = cols(A), d = iv(k); long[][] c = new long[m][n];
    for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) c[i][j] = d >= 0 && d < a[i][j].length ? a[i][j][d] : 0;
    return mkm(f, m, n, c);
  }
  public static Value PMEval(Value p, Value A, Value x) { F f = new F(p); return mkm(f, rows(A), cols(A), f.meval(pmat(f, A), rows(A), cols(A), elt(f, x))); }
  public static Value PMDet(Value p, Value A) { F f = new F(p); return mkv(f, f.pmdet(pmat(f, A))); }
  public static Value PMRank(Value p, Value A) { F f = new F(p); return IntValue.gen(f.pmrank(pmat(f, A), rows(A), cols(A))); }

  public static Value ResidualZero(Value p, Value P, Value Fm, Value ord) {
    F f = new F(p); long[][][] a = pmat(f, P), b = pmat(f, Fm); int m = rows(P), k = cols(P), n = cols(Fm); Value[] o = el(ord);
    for (int j = 0; j < n; j++) { int d = iv(o[j]); for (int l = 0; l < k; l++) b[l][j] = slice(f, b[l][j], 0, d); }
    int D = 0; for (Value x : o) D = Math.max(D, iv(x));
    for (int i = 0; i < m; i++) for (int l = 0; l < k; l++) a[i][l] = slice(f, a[i][l], 0, D);
    long[][][] c = pmm(f, a, b, m, k, n);
    for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) if (slice(f, c[i][j], 0, iv(o[j])).length > 0) return bool(false);
    return bool(true);
  }
  public static Value ApproxCodim(Value p, Value Fm, Value ord) {
    F f = new F(p); long[][][] b = pmat(f, Fm); int m = rows(Fm), n = cols(Fm); Value[] o = el(ord);
    int D = 0, N = 0; int[] pos = new int[n]; for (int j = 0; j < n; j++) { pos[j] = N; N += iv(o[j]); D = Math.max(D, iv(o[j])); }
    if (N == 0 || m == 0) return IntValue.gen(0);
    long[][] M = new long[m * D][N];
    for (int k = 0; k < D; k++) for (int i = 0; i < m; i++) for (int j = 0; j < n; j++)
      for (int t = k; t < iv(o[j]); t++) M[k * m + i][pos[j] + t] = t - k < b[i][j].length ? b[i][j][t - k] : 0;
    return IntValue.gen(f.rank(M, N));
  }
  public static Value InterpCodim(Value p, Value E, Value pts) {
    F f = new F(p); Value[] e = el(E); long[] x = vec(f, pts); int D = x.length;
    if (D == 0) return IntValue.gen(0);
    int m = rows(e[0]), n = cols(e[0]); if (m == 0 || n == 0) return IntValue.gen(0);
    long[][] M = new long[m * D][n * D];
    for (int l = 0; l < D; l++) { long[][] g = mat(f, e[l]); long w = 1 % f.p;
      for (int k = 0; k < D; k++) { for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) M[k * m + i][l * n + j] = f.mul(w, g[i][j]); w = f.mul(w, x[l]); } }
    return IntValue.gen(f.rank(M, n * D));
  }

  public static Value KernelDim(Value p, Value Fm, Value s, Value dd) {
    F f = new F(p); long[][][] A = pmat(f, Fm); int m = rows(Fm), n = cols(Fm), d = iv(dd); Value[] sv = el(s);
    int N = 0, L = 0, D = 0; int[] len = new int[m];
    for (int i = 0; i < m; i++) { len[i] = Math.max(0, d - iv(sv[i]) + 1); N += len[i]; L = Math.max(L, len[i]); for (int j = 0; j < n; j++) D = Math.max(D, A[i][j].length); }
    if (n == 0) return IntValue.gen(N);
    int W = D + L; long[][] M = new long[N][n * W]; int u = 0;
    for (int i = 0; i < m; i++) for (int k = 0; k < len[i]; k++, u++)
      for (int j = 0; j < n; j++) for (int t = 0; t < A[i][j].length; t++) M[u][j + n * (t + k)] = A[i][j][t];
    return IntValue.gen(N - f.rank(M, n * W));
  }
}
