------------------------------- MODULE Oracle -------------------------------
(* Validation of the specification itself: the characterisations by which     *)
(* PmlForms and PmlBases judge the library (rank of the leading matrix, deg   *)
(* det = codimension, dimension counts) against the textbook definitions      *)
(* (predictable degree, generation of the module by enumeration, uniqueness   *)
(* of the Popov basis), exhaustively on tiny domains.                         *)
EXTENDS PmlBases
CONSTANTS What, Cut, Seed     \* what to check; keep the states with hash % Cut = Seed % Cut

p == <<2>>
Vecs(n, len) == [1..(n * len) -> {0, 1}]
PolyAt(h, q, len) == PNorm(p, [i \in 1..len |-> h[q * len + i]])
MatOf(h, r, c, len) == MkMat(r, c, LAMBDA i, j : PolyAt(h, (i - 1) * c + (j - 1), len))
Rows(n, len) == {MatOf(h, 1, n, len) : h \in Vecs(n, len)}
Shifts(n) == IF n = 2 THEN {<<0, 0>>, <<0, 1>>, <<1, 0>>, <<2, 0>>, <<0, 2>>} ELSE {<<0, 0, 0>>, <<1, 0, 0>>, <<0, 1, 2>>}

\* M contains the rows of P, and the vectors of M of degree < len are combinations of them
Generates(P, member(_), len, ulen) ==
  /\ \A i \in 1..P.r : member([r |-> 1, c |-> P.c, e |-> <<P.e[i]>>])
  /\ {v \in Rows(P.c, len) : member(v)} \subseteq {PMMul(p, u, P) : u \in Rows(P.r, ulen)}

VARIABLES f, g, o, s
vars == <<f, g, o, s>>
Hash(h) == SumSeq([i \in 1..Len(h) |-> h[i] * ((37 * i * i + 11 * i) % 251)])
Keep == (Hash(f) + Hash(g) + 7 * o) % Cut = Seed % Cut
Init ==
  /\ CASE What = "app" -> f \in Vecs(2, 2) /\ g \in Vecs(4, 2) /\ o \in 1..2 /\ s \in Shifts(2)
       [] What = "int" -> f \in Vecs(2, 2) /\ g \in Vecs(4, 2) /\ o \in 1..2 /\ s \in Shifts(2)
       [] What = "popov" -> f \in Vecs(2, 2) /\ g = <<0>> /\ o \in 1..2 /\ s \in Shifts(2)
       [] What = "reduced" -> f \in Vecs(4, 2) /\ g = <<0>> /\ o = 0 /\ s \in Shifts(2)
       [] What = "ker2" -> f \in Vecs(2, 2) /\ g \in Vecs(2, 3) /\ o = 0 /\ s \in Shifts(2)
       [] What = "ker3" -> f \in Vecs(3, 2) /\ g \in Vecs(6, 2) /\ o = 0 /\ s \in Shifts(3)
  /\ Keep
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars

Pts == IF o = 1 THEN <<1>> ELSE <<0, 1>>
Sound ==
  CASE What = "app" ->
         LET F == MatOf(f, 2, 1, 2)  P == MatOf(g, 2, 2, 2)  member(v) == ResidualZero(p, v, F, <<o>>)
         IN IsAppBasis(p, P, F, <<o>>, s, REDUCEDF) <=> IsReduced(p, P, s) /\ Generates(P, member, o + 1, o + 3)
    [] What = "int" ->
         LET F == MatOf(f, 2, 1, 2)  P == MatOf(g, 2, 2, 2)
             member(v) == \A l \in 1..o : PEval(p, PMMul(p, v, F).e[1][1], Pts[l]) = 0
         IN IsIntBasis(p, P, Values(p, F, Pts), Pts, 2, s, REDUCEDF) <=> IsReduced(p, P, s) /\ Generates(P, member, o + 1, o + 3)
    [] What = "ker2" \/ What = "ker3" ->
         LET m == IF What = "ker2" THEN 2 ELSE 3
             F == MatOf(f, m, 1, 2)  K == IF m = 2 THEN MatOf(g, 1, 2, 3) ELSE MatOf(g, 2, 3, 2)
             member(v) == PMIsZero(PMMul(p, v, F))
         IN IsKerBasis(p, K, F, s, REDUCEDF) <=> IsReduced(p, K, s) /\ Generates(K, member, 3, 5)
    [] What = "popov" ->
         LET F == MatOf(f, 2, 1, 2)
         IN Cardinality({h \in Vecs(4, 3) : IsAppBasis(p, MatOf(h, 2, 2, 3), F, <<o>>, s, POPOVF)}) = 1
    [] What = "reduced" ->
         LET P == MatOf(f, 2, 2, 2)  rd == RowDegs(P, s)
         IN /\ IsReduced(p, P, s) <=> /\ \A i \in 1..2 : \E j \in 1..2 : P.e[i][j] # <<>>
                                      /\ \A u \in Rows(2, 4) : ~PMIsZero(u) =>
                                           VecSDeg(PMMul(p, u, P).e[1], s) = MaxSeq([i \in 1..2 |-> IF u.e[1][i] = <<>> THEN -99 ELSE Deg(u.e[1][i]) + rd[i]], -99)
            /\ IsPopov(p, P, s) => IsOwp(P, s)
            /\ IsOwp(P, s) => IsWeak(P, s)
            /\ IsWeak(P, s) => IsReduced(p, P, s)
            /\ IsReduced(p, P, s) => Deg(PMDet(p, P)) = SumRowDegs(P, s)
=============================================================================
