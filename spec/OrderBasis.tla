----------------------------- MODULE OrderBasis -----------------------------
(* The construction of approximant, interpolant and kernel bases, as a        *)
(* transition system.  State: the equations still to be satisfied and a basis *)
(* P with its shifted row degrees d.                                          *)
(*                                                                            *)
(* Single: pick any enabled equation (for approximants the coefficients of a  *)
(* column come in increasing order, for interpolants the points come in any   *)
(* order) and the pivot row among the rows with a nonzero residual (smallest  *)
(* shifted degree, then smallest index); eliminate the residual of the other  *)
(* rows; multiply the pivot row by x (or by x - point).                       *)
(* Block: divide and conquer.  Compute, from the residual of P alone and the  *)
(* shift d, a basis Q for a whole block of further equations, and continue    *)
(* with Q P and the d-row degrees of Q.                                       *)
(*                                                                            *)
(* TLC explores every interleaving of both on small inputs and checks, in     *)
(* every reachable state, that P is an ordered weak Popov basis of the module *)
(* of the equations satisfied so far and, at the end, that d is the vector of *)
(* minimal degrees obtained from the definition by linear algebra (so that    *)
(* neither the order of processing nor the splitting matters); for "ker" that *)
(* the rows which cancel the matrix are a kernel basis.  Every terminal state *)
(* is exported as a case with these degrees: all algorithms of the library    *)
(* must return them.                                                          *)
EXTENDS PmlBases
CONSTANTS Kind, Cut, Seed     \* "app", "int" or "ker"; keep the inputs with hash % Cut = Seed % Cut

S2 == {<<0, 0>>, <<0, 1>>, <<2, 0>>, <<0, 3>>}
S3 == {<<0, 0, 0>>, <<0, 1, 0>>, <<2, 0, 1>>}
S4 == {<<0, 0, 0, 0>>, <<1, 0, 2, 0>>}
C_(q, m, n, len, ords, ss) == [p |-> <<q>>, m |-> m, n |-> n, len |-> len, ords |-> ords, ss |-> ss]
Configs ==
  CASE Kind = "app" -> {C_(2, 2, 1, 3, {<<3>>, <<5>>}, S2), C_(2, 2, 2, 2, {<<2, 2>>, <<1, 3>>, <<3, 1>>}, S2), C_(2, 3, 1, 2, {<<2>>, <<4>>}, S3),
                        C_(3, 2, 1, 2, {<<2>>, <<3>>}, S2), C_(2, 3, 2, 1, {<<2, 1>>, <<1, 2>>}, S3), C_(2, 4, 2, 1, {<<1, 2>>}, S4)}
    [] Kind = "int" -> {C_(2, 2, 1, 3, {<<2>>}, S2), C_(3, 2, 1, 2, {<<2>>, <<3>>}, S2), C_(3, 2, 2, 1, {<<2, 2>>}, S2), C_(2, 3, 1, 2, {<<2>>}, S3),
                        C_(2, 3, 2, 1, {<<2, 2>>}, S3), C_(5, 1, 1, 2, {<<4>>}, {<<0>>}), C_(2, 4, 2, 1, {<<2, 2>>}, S4)}
    \* order past the degree of any kernel row plus the degree of the matrix plus the amplitude of the shift
    [] Kind = "ker" -> {C_(2, 2, 1, 3, {<<8>>}, S2), C_(3, 2, 1, 2, {<<6>>}, S2), C_(2, 3, 1, 2, {<<6>>}, S3), C_(2, 3, 2, 2, {<<6, 6>>}, S3), C_(2, 2, 2, 2, {<<8, 8>>}, S2), C_(2, 4, 2, 1, {<<3, 3>>}, S4)}

VARIABLES cfg, ord, s, F,       \* the input
          done,                 \* per column: number of coefficients / set of points dealt with
          P, d
input == <<cfg, ord, s, F>>
vars == <<cfg, ord, s, F, done, P, d>>
p == cfg.p
ByPoints == Kind = "int"
Hash(h) == SumSeq([i \in 1..Len(h) |-> h[i] * ((37 * i * i + 11 * i) % 251)])
MatOf(h, m, n, len) == MkMat(m, n, LAMBDA i, j : PNorm(<<7>>, [t \in 1..len |-> h[((i - 1) * n + (j - 1)) * len + t]]))
Pt(l) == (l + 1) % p[1]           \* points 1, 2, .., 0: pairwise distinct for l < p
Init ==
  /\ cfg \in Configs /\ ord \in cfg.ords /\ s \in cfg.ss
  /\ F \in {MatOf(h, cfg.m, cfg.n, cfg.len) : h \in {h \in [1..(cfg.m * cfg.n * cfg.len) -> 0..(cfg.p[1] - 1)] : (Hash(h) + 5 * ord[1] + 3 * s[1]) % Cut = Seed % Cut}}
  /\ done = [j \in 1..cfg.n |-> IF ByPoints THEN {} ELSE 0]
  /\ P = PMIdent(cfg.p, cfg.m) /\ d = s

\* one elimination step on a basis B with degrees e, for residuals r and factor x - a
Eliminate(B, e, r, factor) ==
  LET N == {i \in 1..B.r : r[i] # Zero(p)}
      q == CHOOSE i \in N : \A k \in N : e[i] < e[k] \/ (e[i] = e[k] /\ i <= k)
      row(i) == IF i \notin N THEN B.e[i]
                ELSE IF i = q THEN [c \in 1..B.c |-> PMul(p, factor, B.e[q][c])]
                ELSE LET a == FNeg(p, FMul(p, r[i], FInv(p, r[q])))
                     IN [c \in 1..B.c |-> PAdd(p, B.e[i][c], PScale(p, a, B.e[q][c]))]
  IN IF N = {} THEN <<B, e>> ELSE <<[B EXCEPT !.e = [i \in 1..B.r |-> row(i)]], [e EXCEPT ![q] = @ + 1]>>
Factor(l) == IF ByPoints THEN <<FNeg(p, Pt(l)), One(p)>> ELSE PMono(p, 1)
\* residuals of the rows of B for coefficient l of column j of G, or for its value at point l
Residual(B, G, j, l) == LET R == PMMul(p, B, G)
                        IN [i \in 1..B.r |-> IF ByPoints THEN PEval(p, R.e[i][j], Pt(l)) ELSE Coef(p, R.e[i][j], l)]
RECURSIVE Run(_, _, _, _)
Run(B, e, G, eqs) == IF eqs = <<>> THEN <<B, e>>
  ELSE LET x == Eliminate(B, e, Residual(B, G, eqs[1][1], eqs[1][2]), Factor(eqs[1][2])) IN Run(x[1], x[2], G, Tail(eqs))

Open(j) == IF ByPoints THEN (0..(ord[j] - 1)) \ done[j] ELSE {l \in {done[j]} : l < ord[j]}
Single(j, l) ==
  LET x == Eliminate(P, d, Residual(P, F, j, l), Factor(l))
  IN /\ done' = [done EXCEPT ![j] = IF ByPoints THEN @ \cup {l} ELSE @ + 1]
     /\ P' = x[1] /\ d' = x[2] /\ UNCHANGED input

\* all columns at once: b more coefficients, or the points of T
Grid(n, ls) == [u \in 1..(n * Len(ls)) |-> <<((u - 1) % n) + 1, ls[((u - 1) \div n) + 1]>>]
BlockOf(G, eqs, done1) ==
  LET x == Run(PMIdent(p, cfg.m), d, G, eqs)
  IN /\ done' = done1 /\ P' = PMMul(p, x[1], P) /\ d' = x[2] /\ UNCHANGED input
Block ==
  IF ByPoints
  THEN LET T == {l \in 0..(ord[1] - 1) : \A j \in 1..cfg.n : l \in Open(j)}
           lo == CHOOSE l \in T : \A k \in T : l <= k
       IN /\ T # {} /\ \E h \in T : /\ h > lo /\ (lo..h) \subseteq T
             /\ BlockOf(PMMul(p, P, F), Grid(cfg.n, [u \in 1..(h - lo + 1) |-> lo + u - 1]), [j \in 1..cfg.n |-> done[j] \cup (lo..h)])
  ELSE \E b \in 2..MaxSeq(ord, 0) :
         /\ \A j \in 1..cfg.n : done[j] + b <= ord[j]
         /\ LET R == PMMul(p, P, F)
                G == MkMat(cfg.m, cfg.n, LAMBDA i, j : PTrunc(p, PShr(p, R.e[i][j], done[j]), b))     \* the residual, and no more of it than needed
            IN BlockOf(G, Grid(cfg.n, [u \in 1..b |-> u - 1]), [j \in 1..cfg.n |-> done[j] + b])
\* the orders are large for "ker": there, one block at the start and then one order of processing
Turn(j) == Kind = "ker" => \A k \in 1..cfg.n : done[j] < done[k] \/ (done[j] = done[k] /\ j <= k)
Split == Kind = "ker" => \A j \in 1..cfg.n : done[j] = 0
Next == (\E j \in 1..cfg.n : \E l \in Open(j) : Turn(j) /\ Single(j, l)) \/ (Split /\ Block)
Spec == Init /\ [][Next]_vars
Final == \A j \in 1..cfg.n : Open(j) = {}

\* the equations dealt with, as values at the points (a column not yet treated at a point counts as 0)
NPts == MaxSeq(ord, 0)
Pts == [l \in 1..NPts |-> Pt(l - 1)]
Vals == [l \in 1..NPts |-> MkMat(cfg.m, cfg.n, LAMBDA i, j : IF (l - 1) \in done[j] THEN PEval(p, F.e[i][j], Pt(l - 1)) ELSE Zero(p))]

BasisSoFar ==
  /\ d = RowDegs(P, s)
  /\ RowPivs(P, s) = [i \in 1..cfg.m |-> i]
  /\ IF ~ByPoints THEN IsAppBasis(p, P, F, done, s, OWPF)
     ELSE /\ IsReduced(p, P, s) /\ Vanishes(p, P, Vals, Pts)
          /\ SumRowDegs(P, s) = InterpCodim(p, Vals, Pts)

Expected == IF ByPoints THEN IntMinDegs(p, Vals, Pts, s) ELSE AppMinDegs(p, F, ord, s)
Minimal == Final => d = Expected

\* rows of P which cancel F
KerIdx == LET R == PMMul(p, P, F) IN SelectSeq([i \in 1..cfg.m |-> i], LAMBDA i : \A j \in 1..cfg.n : R.e[i][j] = <<>>)
KerOf == [r |-> Len(KerIdx), c |-> cfg.m, e |-> [u \in 1..Len(KerIdx) |-> P.e[KerIdx[u]]]]
KernelAtEnd == Final /\ Kind = "ker" => IsKerBasis(p, KerOf, F, s, OWPF)

RECURSIVE Cat(_, _)
Cat(t, i) == IF i > Len(t) THEN "" ELSE " " \o ToString(t[i]) \o Cat(t, i + 1)
RECURSIVE Flat(_)
Flat(t) == IF t = <<>> THEN <<>> ELSE Head(t) \o Flat(Tail(t))
Flt == Flat([u \in 1..(cfg.m * cfg.n) |-> [t \in 1..cfg.len |-> Coef(p, F.e[((u - 1) \div cfg.n) + 1][((u - 1) % cfg.n) + 1], t - 1)]])
Degs == IF Kind = "ker" THEN [u \in 1..Len(KerIdx) |-> d[KerIdx[u]]] ELSE d
\* p m n len k |s| s F | no second matrix | number of orders, orders, number of degrees, degrees
Export == Final => PrintT("CASE" \o Cat(<<p[1], cfg.m, cfg.n, cfg.len, MaxSeq(ord, 0), cfg.m>> \o s \o Flt \o <<0, 0, 0, cfg.n>> \o ord \o <<Len(Degs)>> \o Degs, 1))
=============================================================================
