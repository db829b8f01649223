---------------------------- MODULE AlgebraEquiv ----------------------------
(* The compiled operators of Algebra.class against their TLA+ definitions.    *)
(* PureAlgebra is a verbatim copy of Algebra under another name (made when    *)
(* the check runs), to which TLC applies no override.  Exhaustive over all    *)
(* pairs of small polynomials of F_2 and F_3 (phase "small"), pseudo-random   *)
(* over narrow, wide prime and composite moduli (phase "rand").               *)
EXTENDS Algebra
CONSTANTS N, Seed
D == INSTANCE PureAlgebra

VARIABLES k, rng
vars == <<k, rng>>
Lcg(x) == (x * 17364 + 11) % 65521
RECURSIVE Draw(_, _)
Draw(x, n) == IF n = 0 THEN <<>> ELSE <<Lcg(x)>> \o Draw(Lcg(x), n - 1)

Moduli == << <<2>>, <<3>>, <<7>>, <<101>>, <<46337>>, <<0, 998244353>>, <<1073741823, 1073741731>> >>
Composite == << <<4>>, <<6>>, <<46340>>, <<32768, 1>>, <<1073741823, 1073741823>> >>
\* an element of Z/p from three draws
Elt(p, a, b, c) == IF c % 5 = 0 THEN Zero(p) ELSE IF c % 7 = 0 THEN D!FNeg(p, One(p))
                   ELSE IF Wide(p) THEN (IF p[1] = 0 THEN <<0, (a * 15000 + b) % p[2]>> ELSE <<(a * 16000 + b) % p[1], (b * 16000 + c) % B30>>)
                   ELSE (a * 16000 + b) % p[1]
\* polynomial of at most n coefficients from draws at position o
Poly(p, s, o, n) == D!PNorm(p, [i \in 1..n |-> Elt(p, s[o + 3 * i], s[o + 3 * i + 1], s[o + 3 * i + 2])])
PMat(p, s, o, r, c, n) == MkMat(r, c, LAMBDA i, j : Poly(p, s, o + 3 * n * ((i - 1) * c + (j - 1)), n))
Mt(p, s, o, r, c) == MkMat(r, c, LAMBDA i, j : LET q == o + 3 * ((i - 1) * c + j) IN Elt(p, s[q], s[q + 1], s[q + 2]))

RingAgree(p, s) ==
  LET a == Elt(p, s[1], s[2], s[3])  b == Elt(p, s[4], s[5], s[6])
      f == Poly(p, s, 6, 1 + (s[7] % 4))  g == Poly(p, s, 20, 1 + (s[8] % 4))
      A == PMat(p, s, 40, 2, 2, 2)  B == PMat(p, s, 64, 2, 1, 2)  M == Mt(p, s, 80, 2, 2)  L == Mt(p, s, 92, 2, 2)
      n == s[9] % 5
      pts == <<a, b>>  v == <<b, a>>
  IN /\ FAdd(p, a, b) = D!FAdd(p, a, b) /\ FSub(p, a, b) = D!FSub(p, a, b) /\ FNeg(p, a) = D!FNeg(p, a)
     /\ FMul(p, a, b) = D!FMul(p, a, b) /\ FPow(p, a, n + (s[10] % 30)) = D!FPow(p, a, n + (s[10] % 30))
     /\ FInt(p, s[1] - s[2]) = D!FInt(p, s[1] - s[2])
     /\ IsElt(p, a) /\ IsPoly(p, f) = D!IsPoly(p, f) /\ IsPMat(p, A, 2, 2) /\ IsMat(p, M, 2, 2) /\ ~IsMat(p, M, 2, 1)
     /\ IsPoly(p, f \o <<Zero(p)>>) = D!IsPoly(p, f \o <<Zero(p)>>)
     /\ IsVec(p, v, 2) /\ ~IsVec(p, v, 3) /\ IsPVec(p, <<f, g>>, 2)
     /\ PNorm(p, f \o <<Zero(p), Zero(p)>>) = f
     /\ PAdd(p, f, g) = D!PAdd(p, f, g) /\ PSub(p, f, g) = D!PSub(p, f, g) /\ PNeg(p, f) = D!PNeg(p, f)
     /\ PScale(p, a, f) = D!PScale(p, a, f) /\ PMul(p, f, g) = D!PMul(p, f, g)
     /\ PEval(p, f, a) = D!PEval(p, f, a) /\ PEvals(p, f, pts) = D!PEvals(p, f, pts) /\ TEvals(p, v, pts, n) = D!TEvals(p, v, pts, n)
     /\ PTrunc(p, f, n) = D!PTrunc(p, f, n) /\ PTaylor(p, f, a) = D!PTaylor(p, f, a)
     /\ MMul(p, M, L) = D!MMul(p, M, L) /\ MAdd(p, M, L) = D!MAdd(p, M, L) /\ MSub(p, M, L) = D!MSub(p, M, L)
     /\ LET C == D!PMMul(p, A, B)
        IN /\ PMMul(p, A, B) = C /\ PMMulEq(p, A, B, C) /\ (PMMulEq(p, A, B, D!PMAdd(p, C, B)) = (D!PMAdd(p, C, B) = C))
           /\ PMMulSlice(p, A, B, n % 3, 2) = D!PMMulSlice(p, A, B, n % 3, 2) /\ PMMulTrunc(p, A, B, n) = D!PMMulTrunc(p, A, B, n)
           /\ PMAdd(p, C, B) = D!PMAdd(p, C, B) /\ PMSub(p, C, B) = D!PMSub(p, C, B) /\ PMSlice(p, C, 1, n) = D!PMSlice(p, C, 1, n)
           /\ PMTrunc(p, C, n) = D!PMTrunc(p, C, n) /\ PMCoef(p, C, n) = D!PMCoef(p, C, n) /\ PMEval(p, C, a) = D!PMEval(p, C, a)
     /\ ResidualZero(p, A, B, <<n>>) = D!ResidualZero(p, A, B, <<n>>)
FieldAgree(p, s) ==
  LET a == Elt(p, s[1], s[2], s[3])
      f == Poly(p, s, 6, 1 + (s[7] % 5))  g == Poly(p, s, 22, 1 + (s[8] % 4))
      A == PMat(p, s, 40, 2, 2, 2)  B == PMat(p, s, 64, 3, 1, 2)  M == Mt(p, s, 80, 3, 3)  E == <<Mt(p, s, 108, 2, 1), Mt(p, s, 116, 2, 1)>>
      n == s[9] % 4
      \* a matrix of low rank
      U == D!PMMul(p, PMat(p, s, 40, 2, 1, 2), PMat(p, s, 64, 1, 3, 2))
  IN /\ a # Zero(p) => FInv(p, a) = D!FInv(p, a)
     /\ g # <<>> => PRem(p, f, g) = D!PRem(p, f, g)
     /\ PMonic(p, f) = D!PMonic(p, f) /\ PGcd(p, f, g) = D!PGcd(p, f, g)
     /\ MRank(p, M) = D!MRank(p, M) /\ MDet(p, M) = D!MDet(p, M)
     /\ PMDet(p, A) = D!PMDet(p, A) /\ PMRank(p, A) = D!PMRank(p, A) /\ PMRank(p, U) = D!PMRank(p, U)
     /\ ApproxCodim(p, B, <<n>>) = D!ApproxCodim(p, B, <<n>>) /\ ApproxCodim(p, A, <<n, 2>>) = D!ApproxCodim(p, A, <<n, 2>>)
     /\ InterpCodim(p, E, <<a, D!FAdd(p, a, One(p))>>) = D!InterpCodim(p, E, <<a, D!FAdd(p, a, One(p))>>)
     /\ KernelDim(p, B, <<0, 1, s[10] % 3>>, n) = D!KernelDim(p, B, <<0, 1, s[10] % 3>>, n)

\* all polynomials with at most n coefficients
AllPolys(p, n) == UNION {{g \in [1..l -> 0..(p[1] - 1)] : l = 0 \/ g[l] # 0} : l \in 0..n}
SmallAgree(p, n) ==
  \A f \in AllPolys(p, n) : \A g \in AllPolys(p, n) :
    /\ PAdd(p, f, g) = D!PAdd(p, f, g) /\ PMul(p, f, g) = D!PMul(p, f, g)
    /\ g # <<>> => PRem(p, f, g) = D!PRem(p, f, g)
    /\ PGcd(p, f, g) = D!PGcd(p, f, g)
    /\ \A a \in 0..(p[1] - 1) : PEval(p, f, a) = D!PEval(p, f, a)

Init == k = 0 /\ rng = Lcg(Lcg(Seed % 65521))
Next == k < N /\ k' = k + 1 /\ rng' = Draw(rng, 130)[130]
Spec == Init /\ [][Next]_vars
Agree == IF k = 0 THEN SmallAgree(<<2>>, 3) /\ SmallAgree(<<3>>, 2)
         ELSE LET s == Draw(rng, 140)
                  p == Moduli[1 + ((k + Seed) % Len(Moduli))]
              IN RingAgree(p, s) /\ FieldAgree(p, s) /\ RingAgree(Composite[1 + ((k + Seed) % Len(Composite))], s)
=============================================================================
