------------------------------ MODULE Algebra ------------------------------
(***************************************************************************)
(* Arithmetic of Z/pZ, univariate polynomials, matrices and polynomial     *)
(* matrices: the vocabulary in which the specification of PML is written.  *)
(*                                                                         *)
(* Modulus.  TLC integers are 32-bit, PML moduli go up to 60 bits.  A      *)
(* modulus is a tuple: <<p>> ("narrow", p <= 46340 so that products fit)   *)
(* or <<hi, lo>> ("wide", p = hi*2^30 + lo).  An element is an integer in  *)
(* the narrow case and a pair <<hi, lo>> in the wide case.                 *)
(* Polynomial: tuple of coefficients, lowest first, last one nonzero;      *)
(* <<>> is the zero polynomial.                                            *)
(* Matrix (over the field or over polynomials): [r |-> rows, c |-> cols,   *)
(* e |-> tuple of rows].                                                   *)
(*                                                                         *)
(* Every operator below has a plain TLA+ definition, which is its meaning. *)
(* The class Algebra.class on TLC's class path replaces some of them by    *)
(* compiled code computing the same function; AlgebraEquiv.tla checks the  *)
(* two against each other (exhaustively on tiny domains, at random on      *)
(* wide ones).                                                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

B30 == 1073741824     \* 2^30

Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b
RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))
RECURSIVE MaxSeq(_, _)
MaxSeq(s, d) == IF s = <<>> THEN d ELSE Max(Head(s), MaxSeq(Tail(s), d))
RECURSIVE MinSeq(_, _)
MinSeq(s, d) == IF s = <<>> THEN d ELSE Min(Head(s), MinSeq(Tail(s), d))

Wide(p) == Len(p) = 2

(*-------------------------------- field ---------------------------------*)
Zero(p) == IF Wide(p) THEN <<0, 0>> ELSE 0
One(p)  == IF Wide(p) THEN <<0, 1>> ELSE 1 % p[1]
WLess(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
WSubRaw(a, b) == IF a[2] >= b[2] THEN <<a[1] - b[1], a[2] - b[2]>>
                 ELSE <<a[1] - b[1] - 1, (a[2] - b[2]) + B30>>
WAddRaw(a, b) == IF a[2] < B30 - b[2] THEN <<a[1] + b[1], a[2] + b[2]>>
                 ELSE <<a[1] + b[1] + 1, a[2] - (B30 - b[2])>>

IsElt(p, a) ==
  IF Wide(p) THEN /\ DOMAIN a = {1, 2}
                  /\ a[1] >= 0 /\ a[2] >= 0 /\ a[2] < B30 /\ WLess(a, p)
  ELSE a >= 0 /\ a < p[1]

FAdd(p, a, b) ==
  IF Wide(p) THEN LET s == WAddRaw(a, b) IN IF WLess(s, p) THEN s ELSE WSubRaw(s, p)
  ELSE (a + b) % p[1]
FNeg(p, a) == IF a = Zero(p) THEN a ELSE IF Wide(p) THEN WSubRaw(p, a) ELSE p[1] - a
FSub(p, a, b) == FAdd(p, a, FNeg(p, b))

\* wide multiplication by double-and-add over the bits of b
RECURSIVE WMulInt(_, _, _)
WMulInt(p, a, n) ==   \* a * n for an integer 0 <= n < 2^30
  IF n = 0 THEN Zero(p)
  ELSE LET h == WMulInt(p, a, n \div 2)  d == FAdd(p, h, h)
       IN IF n % 2 = 1 THEN FAdd(p, d, a) ELSE d
RECURSIVE WDbl(_, _, _)
WDbl(p, a, n) == IF n = 0 THEN a ELSE WDbl(p, FAdd(p, a, a), n - 1)
FMul(p, a, b) ==
  IF Wide(p) THEN FAdd(p, WDbl(p, WMulInt(p, a, b[1]), 30), WMulInt(p, a, b[2]))
  ELSE (a * b) % p[1]

\* image of an integer |n| < 2^30
FInt(p, n) ==
  IF n < 0 THEN FNeg(p, IF Wide(p) THEN (LET r == WMulInt(p, One(p), -n) IN r) ELSE (-n) % p[1])
  ELSE IF Wide(p) THEN WMulInt(p, One(p), n) ELSE n % p[1]

RECURSIVE FPow(_, _, _)
FPow(p, a, n) ==
  IF n = 0 THEN One(p)
  ELSE LET h == FPow(p, a, n \div 2)  q == FMul(p, h, h)
       IN IF n % 2 = 1 THEN FMul(p, q, a) ELSE q

\* inverse in a prime field (Fermat): a^(p-2)
RECURSIVE FPowW(_, _, _)
FPowW(p, a, n) ==     \* n a wide nonnegative pair
  IF n = <<0, 0>> THEN One(p)
  ELSE LET half == <<n[1] \div 2, (IF n[1] % 2 = 1 THEN B30 \div 2 ELSE 0) + n[2] \div 2>>
           h == FPowW(p, a, half)  q == FMul(p, h, h)
       IN IF n[2] % 2 = 1 THEN FMul(p, q, a) ELSE q
FInv(p, a) ==
  IF Wide(p) THEN FPowW(p, a, WSubRaw(p, <<0, 2>>))
  ELSE IF p[1] = 2 THEN a ELSE FPow(p, a, p[1] - 2)

(*------------------------------ polynomials ------------------------------*)
IsPoly(p, f) == /\ \A i \in DOMAIN f : IsElt(p, f[i])
                /\ (f # <<>> => f[Len(f)] # Zero(p))
Deg(f) == Len(f) - 1
Coef(p, f, i) == IF i >= 0 /\ i < Len(f) THEN f[i + 1] ELSE Zero(p)
RECURSIVE PNorm(_, _)
PNorm(p, f) == IF f = <<>> THEN f
               ELSE IF f[Len(f)] = Zero(p) THEN PNorm(p, SubSeq(f, 1, Len(f) - 1)) ELSE f
PConst(p, a) == IF a = Zero(p) THEN <<>> ELSE <<a>>
PMono(p, n) == [i \in 1..(n + 1) |-> IF i = n + 1 THEN One(p) ELSE Zero(p)]
PAdd(p, f, g) == PNorm(p, [i \in 1..Max(Len(f), Len(g)) |-> FAdd(p, Coef(p, f, i - 1), Coef(p, g, i - 1))])
PNeg(p, f) == [i \in 1..Len(f) |-> FNeg(p, f[i])]
PSub(p, f, g) == PAdd(p, f, PNeg(p, g))
PScale(p, a, f) == PNorm(p, [i \in 1..Len(f) |-> FMul(p, a, f[i])])
RECURSIVE ConvAt(_, _, _, _, _)
ConvAt(p, f, g, k, i) ==   \* sum over i.. of f_i g_(k-i), 0-based, i up to k
  IF i > k \/ i >= Len(f) THEN Zero(p)
  ELSE FAdd(p, FMul(p, Coef(p, f, i), Coef(p, g, k - i)), ConvAt(p, f, g, k, i + 1))
PMul(p, f, g) == IF f = <<>> \/ g = <<>> THEN <<>>
                 ELSE PNorm(p, [k \in 1..(Len(f) + Len(g) - 1) |-> ConvAt(p, f, g, k - 1, 0)])
PShl(p, f, n) == IF f = <<>> THEN f
                 ELSE [i \in 1..(Len(f) + n) |-> IF i <= n THEN Zero(p) ELSE f[i - n]]
PShr(p, f, n) == IF n >= Len(f) THEN <<>> ELSE SubSeq(f, n + 1, Len(f))
PTrunc(p, f, n) == PNorm(p, SubSeq(f, 1, Min(Len(f), Max(n, 0))))
PSlice(p, f, lo, n) == PTrunc(p, PShr(p, f, lo), n)     \* coefficients lo .. lo+n-1
PRev(p, f, hi) == PNorm(p, [i \in 1..(hi + 1) |-> Coef(p, f, hi + 1 - i)])
RECURSIVE PEval(_, _, _)
PEval(p, f, a) == IF f = <<>> THEN Zero(p)
                  ELSE FAdd(p, Head(f), FMul(p, a, PEval(p, Tail(f), a)))
PEvals(p, f, pts) == [i \in 1..Len(pts) |-> PEval(p, f, pts[i])]
\* transposed evaluation: sum over i of v[i] * pts[i]^j for j = 0..n-1
RECURSIVE TEvalAt(_, _, _, _, _)
TEvalAt(p, v, pts, j, i) == IF i > Len(v) THEN Zero(p)
  ELSE FAdd(p, FMul(p, v[i], FPow(p, pts[i], j)), TEvalAt(p, v, pts, j, i + 1))
TEvals(p, v, pts, n) == [j \in 1..n |-> TEvalAt(p, v, pts, j - 1, 1)]
RECURSIVE PRem(_, _, _)
PRem(p, f, g) ==   \* g # 0, prime modulus (or monic g)
  IF Len(f) < Len(g) THEN f
  ELSE LET c == FMul(p, f[Len(f)], FInv(p, g[Len(g)]))
       IN PRem(p, PNorm(p, PSub(p, f, PShl(p, PScale(p, c, g), Len(f) - Len(g)))), g)
PMonic(p, f) == IF f = <<>> THEN f ELSE PScale(p, FInv(p, f[Len(f)]), f)
RECURSIVE PGcd(_, _, _)
PGcd(p, f, g) == IF g = <<>> THEN PMonic(p, f) ELSE PGcd(p, g, PRem(p, f, g))
\* f(x + a)
RECURSIVE PTaylor(_, _, _)
PTaylor(p, f, a) ==
  IF f = <<>> THEN <<>>
  ELSE PAdd(p, PConst(p, Head(f)), PMul(p, PNorm(p, <<a, One(p)>>), PTaylor(p, Tail(f), a)))

(*-------------------------------- matrices -------------------------------*)
IsShape(M, r, c) == /\ M.r = r /\ M.c = c /\ Len(M.e) = r
                    /\ \A i \in 1..r : Len(M.e[i]) = c
IsMat(p, M, r, c) == IsShape(M, r, c) /\ \A i \in 1..r : \A j \in 1..c : IsElt(p, M.e[i][j])
IsPMat(p, M, r, c) == IsShape(M, r, c) /\ \A i \in 1..r : \A j \in 1..c : IsPoly(p, M.e[i][j])
IsVec(p, v, n) == Len(v) = n /\ \A i \in 1..n : IsElt(p, v[i])
IsPVec(p, v, n) == Len(v) = n /\ \A i \in 1..n : IsPoly(p, v[i])
MkMat(r, c, F(_, _)) == [r |-> r, c |-> c, e |-> [i \in 1..r |-> [j \in 1..c |-> F(i, j)]]]
RowMat(v) == [r |-> 1, c |-> Len(v), e |-> <<v>>]
ColMat(v) == [r |-> Len(v), c |-> 1, e |-> [i \in 1..Len(v) |-> <<v[i]>>]]
Transp(M) == MkMat(M.c, M.r, LAMBDA i, j : M.e[j][i])
SubMat(M, rs, cs) == MkMat(Len(rs), Len(cs), LAMBDA i, j : M.e[rs[i]][cs[j]])

RECURSIVE DotK(_, _, _, _, _, _)
DotK(p, A, B, i, j, k) == IF k > A.c THEN Zero(p)
  ELSE FAdd(p, FMul(p, A.e[i][k], B.e[k][j]), DotK(p, A, B, i, j, k + 1))
MMul(p, A, B) == MkMat(A.r, B.c, LAMBDA i, j : DotK(p, A, B, i, j, 1))
MAdd(p, A, B) == MkMat(A.r, A.c, LAMBDA i, j : FAdd(p, A.e[i][j], B.e[i][j]))
MSub(p, A, B) == MkMat(A.r, A.c, LAMBDA i, j : FSub(p, A.e[i][j], B.e[i][j]))
MIdent(p, n) == MkMat(n, n, LAMBDA i, j : IF i = j THEN One(p) ELSE Zero(p))
MZero(p, r, c) == MkMat(r, c, LAMBDA i, j : Zero(p))

RECURSIVE PDotK(_, _, _, _, _, _)
PDotK(p, A, B, i, j, k) == IF k > A.c THEN <<>>
  ELSE PAdd(p, PMul(p, A.e[i][k], B.e[k][j]), PDotK(p, A, B, i, j, k + 1))
PMMul(p, A, B) == MkMat(A.r, B.c, LAMBDA i, j : PDotK(p, A, B, i, j, 1))
PMAdd(p, A, B) == MkMat(A.r, A.c, LAMBDA i, j : PAdd(p, A.e[i][j], B.e[i][j]))
PMSub(p, A, B) == MkMat(A.r, A.c, LAMBDA i, j : PSub(p, A.e[i][j], B.e[i][j]))
PMNeg(p, A) == MkMat(A.r, A.c, LAMBDA i, j : PNeg(p, A.e[i][j]))
PMTrunc(p, A, n) == MkMat(A.r, A.c, LAMBDA i, j : PTrunc(p, A.e[i][j], n))
PMSlice(p, A, lo, n) == MkMat(A.r, A.c, LAMBDA i, j : PSlice(p, A.e[i][j], lo, n))
PMShl(p, A, n) == MkMat(A.r, A.c, LAMBDA i, j : PShl(p, A.e[i][j], n))
PMShr(p, A, n) == MkMat(A.r, A.c, LAMBDA i, j : PShr(p, A.e[i][j], n))
PMCoef(p, A, k) == MkMat(A.r, A.c, LAMBDA i, j : Coef(p, A.e[i][j], k))
PMEval(p, A, a) == MkMat(A.r, A.c, LAMBDA i, j : PEval(p, A.e[i][j], a))
PMIdent(p, n) == MkMat(n, n, LAMBDA i, j : IF i = j THEN <<One(p)>> ELSE <<>>)
PMZero(r, c) == MkMat(r, c, LAMBDA i, j : <<>>)
PMDeg(A) == MaxSeq([i \in 1..A.r |-> MaxSeq([j \in 1..A.c |-> Deg(A.e[i][j])], -1)], -1)
PMOfMat(p, M) == MkMat(M.r, M.c, LAMBDA i, j : PConst(p, M.e[i][j]))
PMIsZero(A) == \A i \in 1..A.r : \A j \in 1..A.c : A.e[i][j] = <<>>

\* Rank over a prime field, by elimination of the first row's pivot.
RECURSIVE RankRows(_, _, _)
RankRows(p, rows, c) ==
  IF rows = <<>> THEN 0
  ELSE LET row == Head(rows)
           nz == {j \in 1..c : row[j] # Zero(p)}
       IN IF nz = {} THEN RankRows(p, Tail(rows), c)
          ELSE LET j == CHOOSE j \in nz : \A k \in nz : j <= k
                   inv == FInv(p, row[j])
                   elim(r) == LET f == FMul(p, r[j], inv)
                              IN [k \in 1..c |-> FSub(p, r[k], FMul(p, f, row[k]))]
               IN 1 + RankRows(p, [i \in 1..(Len(rows) - 1) |-> elim(rows[i + 1])], c)
MRank(p, M) == RankRows(p, M.e, M.c)

\* Determinants by expansion along the first row (definition); Java uses
\* elimination / evaluation-interpolation.
RECURSIVE DetRows(_, _)
DetRows(p, rows) ==
  IF rows = <<>> THEN One(p)
  ELSE LET n == Len(rows)
           minor(j) == [i \in 1..(n - 1) |-> [k \in 1..(n - 1) |-> rows[i + 1][IF k < j THEN k ELSE k + 1]]]
           term(j) == LET t == FMul(p, rows[1][j], DetRows(p, minor(j)))
                      IN IF j % 2 = 1 THEN t ELSE FNeg(p, t)
           sum[j \in 0..n] == IF j = 0 THEN Zero(p) ELSE FAdd(p, sum[j - 1], term(j))
       IN sum[n]
MDet(p, M) == DetRows(p, M.e)
RECURSIVE PDetRows(_, _)
PDetRows(p, rows) ==
  IF rows = <<>> THEN PConst(p, One(p))
  ELSE LET n == Len(rows)
           minor(j) == [i \in 1..(n - 1) |-> [k \in 1..(n - 1) |-> rows[i + 1][IF k < j THEN k ELSE k + 1]]]
           term(j) == LET t == PMul(p, rows[1][j], PDetRows(p, minor(j)))
                      IN IF j % 2 = 1 THEN t ELSE PNeg(p, t)
           sum[j \in 0..n] == IF j = 0 THEN <<>> ELSE PAdd(p, sum[j - 1], term(j))
       IN sum[n]
PMDet(p, A) == PDetRows(p, A.e)

\* rank over the fraction field K(x): largest size of a nonzero minor
PMRank(p, A) ==
  LET ok(k) == \E rs \in SUBSET (1..A.r) : \E cs \in SUBSET (1..A.c) :
        /\ Cardinality(rs) = k /\ Cardinality(cs) = k
        /\ LET ord(S) == [i \in 1..k |-> CHOOSE x \in S : Cardinality({y \in S : y < x}) = i - 1]
               r == ord(rs)  c == ord(cs)
           IN PMDet(p, SubMat(A, r, c)) # <<>>
      N == Min(A.r, A.c)
  IN CHOOSE k \in 0..N : ok(k) /\ \A h \in (k + 1)..N : ~ok(h)

\* Truncated products, slices of products and "is this the product" tests.
PMMulTrunc(p, A, B, n) == PMTrunc(p, PMMul(p, A, B), n)
PMMulEq(p, A, B, C) == PMMul(p, A, B) = C
PMMulSlice(p, A, B, lo, n) == PMSlice(p, PMMul(p, A, B), lo, n)

\* Is f*A*diag = 0 entry-wise modulo x^(ord[j])?  Residual of an approximant.
ResidualZero(p, P, F, ord) ==
  LET R == PMMul(p, P, F)
  IN \A i \in 1..P.r : \A j \in 1..F.c : PTrunc(p, R.e[i][j], ord[j]) = <<>>

\* Matrix of the K-linear map (p_1..p_m) |-> p*F mod (x^ord) on polynomials
\* of degree < max ord; its rank is the codimension of the approximant module.
ApproxMap(p, F, ord) ==
  LET D == MaxSeq(ord, 0)
      N == SumSeq(ord)
      colpos == [j \in 1..F.c |-> SumSeq(SubSeq(ord, 1, j - 1))]
      colof(t) == CHOOSE j \in 1..F.c : colpos[j] < t /\ t <= colpos[j] + ord[j]
  IN [r |-> F.r * D, c |-> N,
      e |-> [u \in 1..(F.r * D) |->
        LET i == ((u - 1) % F.r) + 1  k == (u - 1) \div F.r
        IN [t \in 1..N |-> LET j == colof(t) IN Coef(p, F.e[i][j], (t - colpos[j] - 1) - k)]]]
ApproxCodim(p, F, ord) == IF SumSeq(ord) = 0 \/ F.r = 0 THEN 0 ELSE MRank(p, ApproxMap(p, F, ord))

\* Same for interpolation at points pts: rows x^k e_i evaluated against F(pt).
InterpCodim(p, E, pts) ==   \* E: sequence of field matrices F(pts[l])
  IF Len(pts) = 0 THEN 0
  ELSE LET m == E[1].r  n == E[1].c  D == Len(pts)
       IN IF m = 0 \/ n = 0 THEN 0
          ELSE MRank(p, [r |-> m * D, c |-> n * D,
             e |-> [u \in 1..(m * D) |->
               LET i == ((u - 1) % m) + 1  k == (u - 1) \div m
               IN [t \in 1..(n * D) |->
                    LET l == ((t - 1) \div n) + 1  j == ((t - 1) % n) + 1
                    IN FMul(p, FPow(p, pts[l], k), E[l].e[i][j])]]])
\* Dimension over K of the vectors v with v*F = 0 and deg(v_i) <= d - s_i.
KernelDim(p, F, s, d) ==
  LET len == [i \in 1..F.r |-> Max(0, d - s[i] + 1)]
      N == SumSeq(len)
      pos == [i \in 1..F.r |-> SumSeq(SubSeq(len, 1, i - 1))]
      rowof(u) == CHOOSE i \in 1..F.r : pos[i] < u /\ u <= pos[i] + len[i]
      D == PMDeg(F) + MaxSeq(len, 0) + 1
  IN N - MRank(p, [r |-> N, c |-> F.c * D,
        e |-> [u \in 1..N |-> LET i == rowof(u)  k == u - pos[i] - 1
               IN [t \in 1..(F.c * D) |-> LET j == ((t - 1) % F.c) + 1  l == (t - 1) \div F.c
                                         IN Coef(p, F.e[i][j], l - k)]]])
=============================================================================
