------------------------------ MODULE PmlBases ------------------------------
(* Approximant, interpolant and kernel bases (C05, C06, C07), and the        *)
(* library's own checkers for them (C21).                                    *)
(*                                                                           *)
(* A square matrix P whose rows lie in a module M of finite codimension and  *)
(* which is s-reduced is a basis of M iff deg det P = codim M, and for an    *)
(* s-reduced matrix deg det P = sum of s-row degrees - sum of s.             *)
EXTENDS PmlForms

BasisOps == {"appbas", "apptop", "pade", "mbasis1", "intbas", "kerbas", "kerrows", "chkapp", "chkint", "chkker"}

SumRowDegs(P, s) == SumSeq(RowDegs(P, s)) - SumSeq(s)

IsAppBasis(p, P, F, ord, s, form) ==
  /\ IsShape(P, F.r, F.r)
  /\ HasForm(p, P, s, form) /\ IsReduced(p, P, s)
  /\ ResidualZero(p, P, F, ord)
  /\ SumRowDegs(P, s) = ApproxCodim(p, F, ord)

\* values of F at the points, from the coefficients or from the given list
Values(p, F, pts) == [l \in 1..Len(pts) |-> PMEval(p, F, pts[l])]
IsZeroMat(p, M) == \A i \in 1..M.r : \A j \in 1..M.c : M.e[i][j] = Zero(p)
InterpRank(p, E) == SumSeq([l \in 1..Len(E) |-> MRank(p, E[l])])
Vanishes(p, P, E, pts) == \A l \in 1..Len(pts) : IsZeroMat(p, MMul(p, PMEval(p, P, pts[l]), E[l]))
IsIntBasis(p, P, E, pts, m, s, form) ==
  /\ IsShape(P, m, m)
  /\ HasForm(p, P, s, form) /\ IsReduced(p, P, s)
  /\ Vanishes(p, P, E, pts)
  /\ SumRowDegs(P, s) = InterpRank(p, E)

\* Minimal degrees of a module of finite codimension N, from the definition: row i
\* of the ordered weak Popov basis has pivot degree the least k such that x^k e_i
\* depends, modulo the module, on the smaller monomials x^h e_j (shifted degree,
\* then index).  img(j, h) is the image of x^h e_j in the quotient, as a tuple.
MinDegs(p, img(_, _), m, N, s) ==
  LET mono == [u \in 1..(m * N) |-> <<((u - 1) % m) + 1, (u - 1) \div m>>]
      low(i, k) == SelectSeq(mono, LAMBDA v : v[2] + s[v[1]] < k + s[i] \/ (v[2] + s[v[1]] = k + s[i] /\ v[1] < i))
      rk(vs) == IF vs = <<>> THEN 0 ELSE MRank(p, [r |-> Len(vs), c |-> Len(img(1, 0)), e |-> [u \in 1..Len(vs) |-> img(vs[u][1], vs[u][2])]])
      dep(i, k) == LET l == low(i, k) IN rk(Append(l, <<i, k>>)) = rk(l)
  IN [i \in 1..m |-> s[i] + (CHOOSE k \in 0..N : dep(i, k) /\ \A h \in 0..(k - 1) : ~dep(i, h))]
AppMinDegs(p, F, ord, s) ==
  LET img(j, h) == [u \in 1..SumSeq(ord) |->
        LET c == CHOOSE c \in 1..F.c : SumSeq(SubSeq(ord, 1, c - 1)) < u /\ u <= SumSeq(SubSeq(ord, 1, c))
        IN Coef(p, F.e[j][c], u - 1 - SumSeq(SubSeq(ord, 1, c - 1)) - h)]
  IN MinDegs(p, img, F.r, SumSeq(ord), s)
IntMinDegs(p, E, pts, s) ==
  LET n == E[1].c
      img(j, h) == [u \in 1..(n * Len(pts)) |-> LET l == ((u - 1) \div n) + 1 IN FMul(p, FPow(p, pts[l], h), E[l].e[j][((u - 1) % n) + 1])]
  IN MinDegs(p, img, E[1].r, n * Len(pts), s)

\* K is an s-reduced basis of the left kernel of F.  Completeness: K has
\* m - rank F rows and, for delta = largest s-row degree of K, the K-vectors
\* of s-degree <= delta spanned by K exhaust the kernel vectors of s-degree
\* <= delta (predictable degree property on the left, rank on the right).
KerSpan(P, s, delta) == SumSeq([i \in 1..P.r |-> Max(0, delta - RowDegs(P, s)[i] + 1)])
IsKerBasis(p, P, F, s, form) ==
  /\ IsShape(P, F.r - PMRank(p, F), F.r)
  /\ (P.r > 0 => /\ HasForm(p, P, s, form) /\ IsReduced(p, P, s)
                 /\ PMIsZero(PMMul(p, P, F))
                 /\ LET d == MaxSeq(RowDegs(P, s), RowDegs(P, s)[1])
                    IN KerSpan(P, s, d) = KernelDim(p, F, s, d))

\* documented shape of generic bases for order `o`, n columns: top and bottom halves
Blk(M, r0, r1, c0, c1) == MkMat(r1 - r0, c1 - c0, LAMBDA i, j : M.e[r0 + i][c0 + j])
MonicDiag(p, M, d) ==   \* M = x^d I + (entries of degree < d)
  \A i \in 1..M.r : \A j \in 1..M.c : IF i = j THEN Deg(M.e[i][j]) = d /\ Coef(p, M.e[i][j], d) = One(p)
                                      ELSE Deg(M.e[i][j]) < d
DivX(p, M) == \A i \in 1..M.r : \A j \in 1..M.c : Coef(p, M.e[i][j], 0) = Zero(p)
GenTop(p, L, R, o) ==      \* [x^d I + P00, P01] or [x^(d+1) I + x P00, x P01]
  LET d == o \div 2
  IN IF o % 2 = 0 THEN MonicDiag(p, L, d) /\ PMDeg(R) <= d - 1
     ELSE MonicDiag(p, L, d + 1) /\ DivX(p, L) /\ PMDeg(R) <= d /\ DivX(p, R)
GenBot(p, L, R, o) ==      \* [x P10, x^d I + x P11] or [P10, x^d I + P11]
  LET d == o \div 2
  IN IF o % 2 = 0 THEN /\ PMDeg(L) <= d /\ DivX(p, L) /\ MonicDiag(p, R, d) /\ DivX(p, R)
     ELSE PMDeg(L) <= d /\ MonicDiag(p, R, d)

Uni(o, n) == [j \in 1..n |-> o]
Zeros(n) == [j \in 1..n |-> 0]

\* degrees announced by the transition system OrderBasis (cases generated from it carry them);
\* they are unique for ordered weak Popov forms, unique up to order for reduced ones
Predicted(e) == "pred" \in DOMAIN e => e.t = e.pred
SameUpToOrder(e) == "pred" \in DOMAIN e => /\ Len(e.t) = Len(e.pred)
  /\ \A i \in 1..Len(e.t) : Cardinality({k \in 1..Len(e.t) : e.t[k] = e.t[i]}) = Cardinality({k \in 1..Len(e.t) : e.pred[k] = e.t[i]})

AppPost(m, e) ==
  /\ IsPMat(m, e.c, e.a.r, e.a.r)
  /\ IsAppBasis(m, e.c, e.a, e.ord, e.s, e.form)
  /\ (e.ht => e.t = RowDegs(e.c, e.s))
  /\ Predicted(e)
  /\ (e.gen => LET n == e.a.c
               IN /\ GenTop(m, Blk(e.c, 0, n, 0, n), Blk(e.c, 0, n, n, 2 * n), e.ord[1])
                  /\ GenBot(m, Blk(e.c, n, 2 * n, 0, n), Blk(e.c, n, 2 * n, n, 2 * n), e.ord[1]))

\* constant matrix F at order 1: kerbas holds the rows that are not x e_i
Mbasis1Post(m, e) ==
  LET n == e.a.r
      S == {i \in 1..n : e.t[i] = 0}
      pos(i) == Cardinality({k \in S : k <= i})
      P == MkMat(n, n, LAMBDA i, j : IF i \in S THEN PConst(m, e.c.e[pos(i)][j])
                                     ELSE IF i = j THEN PMono(m, 1) ELSE <<>>)
  IN /\ Len(e.t) = n /\ \A i \in 1..n : e.t[i] \in {0, 1}
     /\ IF S = {} THEN e.c.r = 0 ELSE IF Cardinality(S) = n /\ e.c.r = 0 THEN IsZeroMat(m, e.a)
        ELSE IsMat(m, e.c, Cardinality(S), n) /\ IsAppBasis(m, P, PMOfMat(m, e.a), Uni(1, e.a.c), e.s, e.form)

PadePost(m, e) ==
  LET n == e.a.r  num(D) == PMMulTrunc(m, D, e.a, e.ord)
  IN CASE e.kind = "den" -> IsPMat(m, e.c, n, n) /\ GenTop(m, e.c, num(e.c), e.ord)
       [] e.kind = "den2" -> /\ IsPMat(m, e.c, n, n) /\ GenTop(m, e.c, num(e.c), e.ord)
                             /\ IsPMat(m, e.d, n, n) /\ GenBot(m, e.d, num(e.d), e.ord)
       [] e.kind = "rec" -> /\ IsPMat(m, e.c, 2 * n, n)
                            /\ LET A == Blk(e.c, 0, n, 0, n)  B == Blk(e.c, n, 2 * n, 0, n)
                               IN GenTop(m, A, num(A), e.ord) /\ GenBot(m, B, num(B), e.ord)

IntPost(m, e) ==
  LET E == IF e.byev THEN e.a ELSE Values(m, e.a, e.pts)
      mm == IF e.byev THEN e.a[1].r ELSE e.a.r
      lo == e.off + 1  hi == e.off + e.n
      Es == SubSeq(E, lo, hi)  Ps == SubSeq(e.pts, lo, hi)
  IN /\ IsPMat(m, e.c, mm, mm)
     /\ IsIntBasis(m, e.c, Es, Ps, mm, e.s, e.form)
     /\ e.t = RowDegs(e.c, e.s)
     /\ (e.geo => \A l \in 1..(Len(e.pts) - 1) : e.pts[l + 1] = FMul(m, e.pts[l], FMul(m, e.r, e.r)))
     /\ (e.geo /\ e.first => e.pts[1] = One(m))

KerPost(m, e) ==
  /\ IsPMat(m, e.c, e.c.r, e.a.r)
  /\ IsKerBasis(m, e.c, e.a, e.s, e.form)
  /\ (e.ht => IF e.c.r = 0 THEN e.t = <<>> ELSE e.t = RowDegs(e.c, e.s))
  /\ (e.form = REDUCEDF => SameUpToOrder(e)) /\ (e.form # REDUCEDF => Predicted(e))
  /\ (e.hp => IF e.c.r = 0 THEN e.piv = <<>> ELSE e.piv = Off1(RowPivs(e.c, e.s)))

\* Checkers.  A randomised checker may accept a wrong candidate with small
\* probability: it must never reject a valid one, must reject deterministically
\* what it tests deterministically, and over a large field (e.big) everything.
\* The kernel checker tests membership and form only (generation is documented
\* as not tested).
ChkPost(m, e) ==
  CASE e.op = "chkapp" -> LET v == IsAppBasis(m, e.b, e.a, e.ord, e.s, e.form)
                              w == /\ IsShape(e.b, e.a.r, e.a.r) /\ HasForm(m, e.b, e.s, e.form)
                                   /\ ResidualZero(m, e.b, e.a, e.ord)
                          IN (v => e.c) /\ (~w => ~e.c) /\ (e.big /\ ~v => ~e.c)
    [] e.op = "chkint" -> LET E == IF e.byev THEN e.a ELSE Values(m, e.a, e.pts)
                              mm == IF e.byev THEN e.a[1].r ELSE e.a.r
                          IN e.c = IsIntBasis(m, e.b, E, e.pts, mm, e.s, e.form)
    [] e.op = "chkker" -> LET f == e.b.c = e.a.r /\ HasForm(m, e.b, e.s, e.form)
                              z == f /\ PMIsZero(PMMul(m, e.b, e.a))
                          IN (z => e.c) /\ (~f => ~e.c) /\ ((~e.rand \/ e.big) /\ ~z => ~e.c)

BasisPost(m, e) ==
  CASE e.op = "appbas" -> AppPost(m, e)
    [] e.op = "apptop" -> LET n == e.a.c IN /\ IsPMat(m, e.c, n, 2 * n)
                                            /\ ResidualZero(m, e.c, e.a, e.ord)
                                            /\ GenTop(m, Blk(e.c, 0, n, 0, n), Blk(e.c, 0, n, n, 2 * n), e.ord[1])
    [] e.op = "pade" -> PadePost(m, e)
    [] e.op = "mbasis1" -> Mbasis1Post(m, e)
    [] e.op = "intbas" -> IntPost(m, e)
    [] e.op = "kerbas" -> KerPost(m, e)
    [] e.op = "kerrows" -> LET k == e.a.r - PMRank(m, e.a)     \* kernel rows of full rank
                           IN /\ IsPMat(m, e.c, k, e.a.r) /\ PMIsZero(PMMul(m, e.c, e.a)) /\ PMRank(m, e.c) = k
    [] OTHER -> ChkPost(m, e)
=============================================================================
