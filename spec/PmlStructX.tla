----------------------------- MODULE PmlStructX -----------------------------
(* Structured matrices over the polynomials (C17).  As in PmlStruct, an      *)
(* object is the dense polynomial matrix M it denotes; preparing it for a    *)
(* degree changes nothing observable.                                        *)
EXTENDS Algebra

StructXOps == {"sx.new", "sx.dense", "sx.mulr", "sx.mulrt", "sx.mull", "sx.mullt", "sx.mulrm", "sx.mulrmt", "sx.mullm", "sx.mullmt",
               "sx.prep", "sx.phi", "sx.gens", "sx.inv"}

XUp(A, i) == IF i = 1 THEN A.r ELSE i - 1
XNx(A, j) == IF j = A.c THEN 1 ELSE j + 1
XTPlus(m, A)  == MkMat(A.r, A.c, LAMBDA i, j : PSub(m, A.e[XUp(A, i)][j], IF j = A.c THEN <<>> ELSE A.e[i][j + 1]))   \* Z1 A - A Z0
XTMinus(m, A) == MkMat(A.r, A.c, LAMBDA i, j : PSub(m, IF i = 1 THEN <<>> ELSE A.e[i - 1][j], A.e[i][XNx(A, j)]))      \* Z0 A - A Z1
XAt(v, k) == IF k >= 1 /\ k <= Len(v) THEN v[k] ELSE <<>>

XDefines(m, e, M) ==
  LET r == M.r  c == M.c
  IN CASE e.kind = "ltt" -> IsPMat(m, M, Len(e.d), Len(e.d)) /\ \A i \in 1..r : \A j \in 1..c : M.e[i][j] = XAt(e.d, i - j + 1)
       [] e.kind = "circrow" -> IsPMat(m, M, e.r, Len(e.d)) /\ \A i \in 1..r : \A j \in 1..c : M.e[i][j] = e.d[((i - j - 1) % c) + 1]
       [] e.kind = "tminus" -> IsPMat(m, M, e.G.r, e.H.r) /\ PMMulEq(m, e.G, Transp(e.H), XTMinus(m, M))
       [] e.kind = "sylvester" ->
            LET da == Len(e.a) - 1  db == Len(e.b) - 1
            IN /\ IsPMat(m, M, da + db, da + db)
               /\ \A i \in 1..r : \A j \in 1..c : M.e[i][j] = IF j <= db THEN XAt(e.a, i - j + 1) ELSE XAt(e.b, i - (j - db) + 1)

StructXPost(m, o, e) ==
  IF e.op = "sx.new" THEN e.nr = e.M.r /\ e.nc = e.M.c /\ XDefines(m, e, e.M)
  ELSE IF e.op = "sx.phi" THEN e.c = (IF e.kind = "tplus" THEN XTPlus(m, e.a) ELSE XTMinus(m, e.a))
  ELSE
  LET M == o[e.id].M
  IN CASE e.op = "sx.dense" -> e.c = M
       [] e.op = "sx.prep" -> TRUE
       [] e.op = "sx.mulr" -> PMMulEq(m, M, ColMat(e.v), ColMat(e.c))
       [] e.op = "sx.mulrt" -> PMMulTrunc(m, M, ColMat(e.v), e.s) = ColMat(e.c)
       [] e.op = "sx.mull" -> PMMulEq(m, RowMat(e.v), M, RowMat(e.c))
       [] e.op = "sx.mullt" -> PMMulTrunc(m, RowMat(e.v), M, e.s) = RowMat(e.c)
       [] e.op = "sx.mulrm" -> PMMulEq(m, M, e.v, e.c)
       [] e.op = "sx.mulrmt" -> PMMulTrunc(m, M, e.v, e.s) = e.c
       [] e.op = "sx.mullm" -> PMMulEq(m, e.v, M, e.c)
       [] e.op = "sx.mullmt" -> PMMulTrunc(m, e.v, M, e.s) = e.c
       [] e.op = "sx.gens" -> /\ e.G.r = M.r /\ e.H.r = M.c /\ e.G.c = e.H.c
                              /\ PMMulEq(m, e.G, Transp(e.H), XTPlus(m, M))
       \* the inverse modulo x^k
       [] e.op = "sx.inv" -> IsPMat(m, e.c, M.r, M.r) /\ PMMulTrunc(m, M, e.c, e.k) = PMIdent(m, M.r)

StructXObj(o, e) == IF e.op = "sx.new" THEN (e.id :> [M |-> e.M]) @@ o ELSE o
=============================================================================
