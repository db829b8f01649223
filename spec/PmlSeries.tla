------------------------------ MODULE PmlSeries ------------------------------
(* Truncated inverses, series solutions and high-order lifting (C08), linear  *)
(* systems over K(x) (C09), determinants (C10), division with remainder and   *)
(* row reduction (C11), matrix sequences and fraction reconstruction (C20).   *)
(* Postconditions are relations on inputs and outputs; where a witness makes  *)
(* a relation cheap to decide (a cofactor, a longer expansion), the trace     *)
(* carries it and the specification verifies the witness itself.              *)
EXTENDS PmlForms

SeriesOps == {"invtrunc", "solser", "solserv", "invmul", "hol",
              "linser", "linker", "det", "detc", "detgen", "detchk",
              "quorem", "gjv", "genpows", "genseq", "reconapp", "reconint"}

Associates(p, f, g) == (f = <<>>) = (g = <<>>) /\ PMonic(p, f) = PMonic(p, g)
RECURSIVE GcdSeq(_, _, _)
GcdSeq(p, g, s) == IF s = <<>> THEN g ELSE GcdSeq(p, PGcd(p, g, Head(s)), Tail(s))
RECURSIVE PPowMod(_, _, _, _)
PPowMod(p, f, n, g) ==
  IF n = 0 THEN PRem(p, <<One(p)>>, g)
  ELSE LET h == PPowMod(p, f, n \div 2, g)
           q == PRem(p, PMul(p, h, h), g)
       IN IF n % 2 = 1 THEN PRem(p, PMul(p, q, f), g) ELSE q
PVScale(p, f, v) == [i \in 1..Len(v) |-> PMul(p, f, v[i])]
UnitCst(f) == Len(f) = 1

InvTruncPost(m, e) == /\ IsPMat(m, e.c, e.a.r, e.a.r)
                      /\ PMDeg(e.c) < e.d
                      /\ PMMulTrunc(m, e.a, e.c, e.d) = PMIdent(m, e.a.r)

SolvePost(m, a, b, n, c) == /\ IsPMat(m, c, a.r, b.c)
                            /\ PMDeg(c) < n
                            /\ PMMulTrunc(m, a, c, n) = PMTrunc(m, b, n)

\* S_i: coefficients i-(2d-1) .. i-1 of the expansion E of A^-1
HolSlice(p, E, i, d) == PMSlice(p, E, i - (2 * d - 1), 2 * d - 1)
HolPost(m, e) == /\ PMMulTrunc(m, e.a, e.w, 2 * e.i2 - e.d) = PMIdent(m, e.a.r)     \* witness
                 /\ e.s = HolSlice(m, e.w, e.i2, e.d)
                 /\ e.c = HolSlice(m, e.w, 2 * e.i2 - e.d, e.d)

RatSolution(m, e) == /\ IsPVec(m, e.u, e.a.c) /\ IsPoly(m, e.den) /\ e.den # <<>>
                     /\ PMMul(m, e.a, ColMat(e.u)) = ColMat(PVScale(m, e.den, e.b))
                     /\ UnitCst(GcdSeq(m, PMonic(m, e.den), e.u))
Augment(A, b) == MkMat(A.r, A.c + 1, LAMBDA i, j : IF j <= A.c THEN A.e[i][j] ELSE b[i])

QuoRemPost(m, e) ==
  LET A == e.a  B == e.b
  IN /\ IsPMat(m, e.q, B.c, A.c) /\ IsPMat(m, e.c, A.r, A.c)
     /\ PMAdd(m, PMMul(m, B, e.q), e.c) = A
     /\ \A i \in 1..A.r : RowDegs(e.c, [j \in 1..A.c |-> 0])[i] < RowDegs(B, [j \in 1..B.c |-> 0])[i]
        \/ \A j \in 1..A.c : e.c.e[i][j] = <<>>

\* R is a row-reduced basis of the row space of A; witness w with R = w*A
ReducedPost(m, e) ==
  IF MDet(m, PMCoef(m, e.a, 0)) = Zero(m) THEN e.st2 = 0
  ELSE /\ e.st2 = 1
       /\ IsPMat(m, e.c, e.a.r, e.a.r)
       /\ IsReduced(m, e.c, [j \in 1..e.a.c |-> 0])
       /\ PMMul(m, e.w, e.a) = e.c
       /\ UnitCst(PMDet(m, e.w))

GenPowsPost(m, e) ==
  LET n == Deg(e.g)
      pw == [i \in 1..e.l |-> PRem(m, PMul(m, e.t, PPowMod(m, e.a, e.s * (i - 1), e.g)), e.g)]
  IN /\ e.c = pw
     /\ e.up => /\ PTrunc(m, PMul(m, PRev(m, e.g, n), e.w), n - 1) = <<One(m)>>   \* witness: 1/rev(g)
                /\ e.d = [i \in 1..e.l |-> PTrunc(m, PMul(m, e.w, PRev(m, pw[i], n - 1)), n - 1)]

GenSeqPost(m, e) ==
  LET n == Deg(e.g)
      D == 2 * ((n + e.m - 1) \div e.m)
  IN /\ Len(e.c) = D + 1
     /\ \A k \in 0..D :
          LET b == PPowMod(m, e.a, D - k, e.g)
          IN e.c[k + 1] = MkMat(e.m, e.m, LAMBDA i, j : Coef(m, PRem(m, PShl(m, b, i - 1), e.g), j - 1))

\* sequence = expansion (values) of D0^-1 N0 for D0 = x^d I + lower: the
\* denominator in Popov form is D0 itself
ReconAppPost(m, e) == /\ PMMulTrunc(m, e.d0, e.ser, e.n) = PMTrunc(m, e.n0, e.n)    \* witness
                      /\ e.c = e.d0
ReconIntPost(m, e) ==
  /\ IsPMat(m, e.c, e.d0.r, e.d0.r)
  /\ \A l \in 1..Len(e.pts) : MMul(m, PMEval(m, e.d0, e.pts[l]), e.ev[l]) = PMEval(m, e.n0, e.pts[l])
  /\ PMMul(m, e.w, e.d0) = e.c                       \* annihilates ...
  /\ UnitCst(PMDet(m, e.w))                          \* ... and generates
  /\ IsReduced(m, e.c, [j \in 1..e.c.c |-> 0])

SeriesPost(m, e) ==
  CASE e.op = "invtrunc" -> InvTruncPost(m, e)
    [] e.op = "solser" -> SolvePost(m, e.a, e.b, e.n, e.c)
    [] e.op = "solserv" -> IsPVec(m, e.c, e.a.r) /\ SolvePost(m, e.a, ColMat(e.b), e.n, ColMat(e.c))
    [] e.op = "invmul" -> /\ IsPoly(m, e.c) /\ Deg(e.c) < e.d
                          /\ PTrunc(m, PMul(m, e.a, e.c), e.d) = PTrunc(m, e.b, e.d)
    [] e.op = "hol" -> HolPost(m, e)
    [] e.op = "linser" -> RatSolution(m, e)
    [] e.op = "linker" -> IF e.ret = 0 THEN PMRank(m, Augment(e.a, e.b)) > PMRank(m, e.a) ELSE e.ret = 1 /\ RatSolution(m, e)
    [] e.op = "det" -> e.c = PMDet(m, e.a)
    [] e.op = "detc" -> IsPoly(m, e.c) /\ Associates(m, e.c, PMDet(m, e.a))
    [] e.op = "detgen" -> /\ IsPoly(m, e.c)
                          /\ LET D == PMDet(m, e.a)
                             IN IF e.a.r <= 4 THEN e.c = D /\ e.ret = (Deg(D) = e.k)
                                ELSE /\ e.ret = Associates(m, e.c, D)
                                     /\ e.gen => e.ret
    [] e.op = "detchk" -> LET D == PMDet(m, e.a)
                              ok == IF e.upto THEN Associates(m, e.d, D) ELSE e.d = D
                          IN e.ret = ok
    [] e.op = "quorem" -> QuoRemPost(m, e)
    [] e.op = "gjv" -> ReducedPost(m, e)
    [] e.op = "genpows" -> GenPowsPost(m, e)
    [] e.op = "genseq" -> GenSeqPost(m, e)
    [] e.op = "reconapp" -> ReconAppPost(m, e)
    [] e.op = "reconint" -> ReconIntPost(m, e)
    [] OTHER -> FALSE
=============================================================================
