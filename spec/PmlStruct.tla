----------------------------- MODULE PmlStruct -----------------------------
(* Structured matrices over the field (C15) and their solvers (C16).         *)
(* A structured object is, abstractly, the dense matrix M it denotes (and    *)
(* its block sizes if it is a mosaic).  It is created by st.new, whose       *)
(* postcondition relates M to the defining data; every later operation must  *)
(* agree with M, and none changes it.                                        *)
EXTENDS Algebra

StructOps == {"st.new", "st.dense", "st.mulr", "st.mull", "st.mulrm", "st.mullm", "st.simr", "st.siml", "st.simrm", "st.simlm",
              "st.entry", "st.gens", "st.fcol", "st.lcol", "st.frow", "st.lrow", "st.phi",
              "st.solve", "st.solvem", "st.solvet", "st.solvetm", "st.inv", "st.block", "st.prep", "st.syinv"}

\* displacement operators on a dense matrix A (1-based indices)
Up(A, i) == IF i = 1 THEN A.r ELSE i - 1
Nx(A, j) == IF j = A.c THEN 1 ELSE j + 1
TPlus(m, A)  == MkMat(A.r, A.c, LAMBDA i, j : FSub(m, A.e[Up(A, i)][j], IF j = A.c THEN Zero(m) ELSE A.e[i][j + 1]))   \* Z1 A - A Z0
TMinus(m, A) == MkMat(A.r, A.c, LAMBDA i, j : FSub(m, IF i = 1 THEN Zero(m) ELSE A.e[i - 1][j], A.e[i][Nx(A, j)]))      \* Z0 A - A Z1
HPlus(m, A)  == MkMat(A.r, A.c, LAMBDA i, j : FSub(m, A.e[Up(A, i)][j], IF j = 1 THEN Zero(m) ELSE A.e[i][j - 1]))      \* Z1 A - A Z0^t
HMinus(m, A) == MkMat(A.r, A.c, LAMBDA i, j : FSub(m, IF i = A.r THEN Zero(m) ELSE A.e[i + 1][j], A.e[i][Nx(A, j)]))    \* Z0^t A - A Z1
Disp(m, kind, A) == CASE kind = "tplus" -> TPlus(m, A) [] kind = "tminus" -> TMinus(m, A)
                      [] kind = "hplus" -> HPlus(m, A) [] kind = "hminus" -> HMinus(m, A)

HankelE(m, d, r, c, i, j) == d[(r + c - 2) - (i - 1) - (j - 1) + 1]
ToeplitzE(m, d, r, c, i, j) == d[(c - 1) + (i - 1) - (j - 1) + 1]
GHt(m, G, H) == MMul(m, G, Transp(H))
Pows(m, a, n) == [i \in 1..n |-> FPow(m, a, i - 1)]

\* index of the block holding position i, and position inside it
RECURSIVE BlockOf(_, _, _)
BlockOf(sz, i, k) == IF i <= sz[k] THEN <<k, i>> ELSE BlockOf(sz, i - sz[k], k + 1)
BlockStart(sz, k) == SumSeq(SubSeq(sz, 1, k - 1)) + 1
BlockEnd(sz, k) == SumSeq(SubSeq(sz, 1, k))

Defines(m, e, M) ==
  LET r == M.r  c == M.c
  IN CASE e.kind = "hankel" -> IsMat(m, M, e.r, e.cc) /\ \A i \in 1..r : \A j \in 1..c : M.e[i][j] = HankelE(m, e.d, r, c, i, j)
       [] e.kind = "toeplitz" -> IsMat(m, M, e.r, e.cc) /\ \A i \in 1..r : \A j \in 1..c : M.e[i][j] = ToeplitzE(m, e.d, r, c, i, j)
       [] e.kind = "ltt" -> IsMat(m, M, Len(e.d), Len(e.d)) /\ \A i \in 1..r : \A j \in 1..c : M.e[i][j] = IF i >= j THEN e.d[i - j + 1] ELSE Zero(m)
       [] e.kind = "circrow" -> IsMat(m, M, e.r, Len(e.d)) /\ \A i \in 1..r : \A j \in 1..c : M.e[i][j] = e.d[((i - j - 1) % c) + 1]
       [] e.kind = "circcol" -> IsMat(m, M, Len(e.d), e.cc) /\ \A i \in 1..r : \A j \in 1..c : M.e[i][j] = e.d[((i - j) % r) + 1]
       [] e.kind \in {"tplus", "tminus", "hplus", "hminus"} -> IsMat(m, M, e.G.r, e.H.r) /\ Disp(m, e.kind, M) = GHt(m, e.G, e.H)
       [] e.kind = "cauchy" -> /\ IsMat(m, M, e.r, e.cc)
                               /\ LET pw == Pows(m, e.rho, Max(r, c))
                                  IN \A i \in 1..r : \A j \in 1..c :
                                       FMul(m, M.e[i][j], FSub(m, FMul(m, e.u, pw[i]), FMul(m, e.v, pw[j]))) = One(m)
       [] e.kind = "clike" -> /\ IsMat(m, M, e.G.r, e.H.r)
                              /\ LET pw == Pows(m, e.rho, Max(r, c))
                                     P == GHt(m, e.G, e.H)
                                 IN \A i \in 1..r : \A j \in 1..c :
                                      FMul(m, M.e[i][j], FSub(m, FMul(m, e.u, pw[i]), FMul(m, e.v, pw[j]))) = P.e[i][j]
       [] e.kind \in {"mhankel", "mtoeplitz"} ->
            /\ IsMat(m, M, SumSeq(e.rs), SumSeq(e.cs))
            /\ \A i \in 1..r : \A j \in 1..c :
                 LET a == BlockOf(e.rs, i, 1)  b == BlockOf(e.cs, j, 1)
                 IN M.e[i][j] = IF e.kind = "mhankel" THEN HankelE(m, e.d[a[1]][b[1]], e.rs[a[1]], e.cs[b[1]], a[2], b[2])
                                ELSE ToeplitzE(m, e.d[a[1]][b[1]], e.rs[a[1]], e.cs[b[1]], a[2], b[2])
            /\ e.nb = Len(e.rs) /\ e.mb = Len(e.cs) /\ e.brs = e.rs /\ e.bcs = e.cs
       [] e.kind = "sylvester" ->
            LET da == Deg(e.a)  db == Deg(e.b)
            IN IsMat(m, M, da + db, da + db)
               /\ \A i \in 1..r : \A j \in 1..c : M.e[i][j] = IF j <= db THEN Coef(m, e.a, i - j) ELSE Coef(m, e.b, i - (j - db))

VecMul(m, M, v) == MMul(m, M, ColMat(v))
MulVec(m, v, M) == MMul(m, RowMat(v), M)
\* Cauchy product without the diagonal: D M with D = diag(rho^i)
Undiag(m, o) == LET pw == Pows(m, o.rho, o.M.r) IN MkMat(o.M.r, o.M.c, LAMBDA i, j : FMul(m, pw[i], o.M.e[i][j]))

\* over such fields a randomised preconditioner fails with negligible probability
Huge(m) == Wide(m) /\ m[1] >= 16384

(*---------------------------- solving, inverting -------------------------*)
Lead(M, k) == MkMat(k, k, LAMBDA i, j : M.e[i][j])
\* generic rank profile: the leading minors up to the rank are nonzero
Grp(m, M) == LET rk == MRank(m, M) IN \A k \in 1..rk : MRank(m, Lead(M, k)) = k
IsInverse(m, A, B) == A.r = A.c /\ IsMat(m, B, A.r, A.r) /\ MMul(m, A, B) = MIdent(m, A.r)
AppendCol(M, v) == MkMat(M.r, M.c + 1, LAMBDA i, j : IF j <= M.c THEN M.e[i][j] ELSE v[i])
Solvable(m, M, v) == MRank(m, AppendCol(M, v)) = MRank(m, M)
Solves(m, M, x, v) == IsVec(m, x, M.c) /\ VecMul(m, M, x) = ColMat(v)

StructPost(m, o, e) ==
  IF e.op = "st.new" THEN /\ e.nr = e.M.r /\ e.nc = e.M.c
                          /\ Defines(m, e, e.M)
  ELSE IF e.op = "st.phi" THEN e.c = Disp(m, e.kind, e.a)
  ELSE
  LET s == o[e.id]
      M == s.M
  IN CASE e.op = "st.dense" -> e.c = M
       [] e.op = "st.entry" -> e.c = M.e[e.k + 1][e.l + 1]
       [] e.op = "st.mulr" -> ColMat(e.c) = VecMul(m, M, e.v)
       [] e.op = "st.mull" -> RowMat(e.c) = MulVec(m, e.v, M)
       [] e.op = "st.mulrm" -> e.c = MMul(m, M, e.v)
       [] e.op = "st.mullm" -> e.c = MMul(m, e.v, M)
       [] e.op = "st.simr" -> ColMat(e.c) = VecMul(m, Undiag(m, s), e.v)
       [] e.op = "st.siml" -> RowMat(e.c) = MulVec(m, e.v, Undiag(m, s))
       [] e.op = "st.simrm" -> e.c = MMul(m, Undiag(m, s), e.v)
       [] e.op = "st.simlm" -> e.c = MMul(m, e.v, Undiag(m, s))
       [] e.op = "st.gens" -> /\ e.G.r = M.r /\ e.H.r = M.c /\ e.G.c = e.H.c
                              /\ GHt(m, e.G, e.H) = Disp(m, IF s.kind = "mhankel" THEN "hplus" ELSE "tplus", M)
       [] e.op = "st.fcol" -> e.c = [i \in 1..M.r |-> M.e[i][BlockStart(s.cs, e.k + 1)]]
       [] e.op = "st.lcol" -> e.c = [i \in 1..M.r |-> M.e[i][BlockEnd(s.cs, e.k + 1)]]
       [] e.op = "st.frow" -> e.c = M.e[BlockStart(s.rs, e.k + 1)]
       [] e.op = "st.lrow" -> e.c = M.e[BlockEnd(s.rs, e.k + 1)]
       [] e.op = "st.prep" -> TRUE
       \* Cauchy-like: 1 whenever the rank profile is generic, and right whenever 1; mosaics: randomised preconditioning, 0 means "no answer"
       [] e.op = "st.solve" /\ s.kind = "clike" -> /\ e.ret = 1 \/ (e.ret = 0 /\ ~Grp(m, M))
                                                   /\ e.ret = 1 => IF Solvable(m, M, e.v) THEN Solves(m, M, e.c, e.v) ELSE e.c = <<>>
       [] e.op = "st.solve" /\ s.kind \in {"mhankel", "mtoeplitz"} ->
                                 /\ e.ret \in {0, 1}
                                 /\ Huge(m) => e.ret = 1
                                 /\ e.ret = 1 => IF Solvable(m, M, e.v) THEN Solves(m, M, e.c, e.v) ELSE e.c = <<>>
       [] e.op = "st.inv" /\ s.kind = "clike" -> /\ e.ret = 1 \/ (e.ret = 0 /\ ~Grp(m, M))
                                                 /\ e.ret = 1 => IsInverse(m, Lead(M, MRank(m, M)), e.c)
       [] e.op = "st.inv" /\ s.kind \in {"mhankel", "mtoeplitz"} ->
                                 /\ e.ret \in {0, 1}
                                 /\ Huge(m) => e.ret = IF MRank(m, M) = M.r THEN 1 ELSE 0
                                 /\ e.ret = 1 => IsInverse(m, M, e.c)
       \* Sylvester: exact
       [] e.op = "st.solve" -> IF MRank(m, M) < M.r THEN e.ret = 0 ELSE e.ret = 1 /\ Solves(m, M, e.c, e.v)
       [] e.op = "st.solvem" -> IF MRank(m, M) < M.r THEN e.ret = 0 ELSE e.ret = 1 /\ IsMat(m, e.c, M.r, e.v.c) /\ MMul(m, M, e.c) = e.v
       [] e.op = "st.solvet" -> IF MRank(m, M) < M.r THEN e.ret = 0 ELSE e.ret = 1 /\ IsVec(m, e.c, M.r) /\ MulVec(m, e.c, M) = RowMat(e.v)
       [] e.op = "st.solvetm" -> IF MRank(m, M) < M.r THEN e.ret = 0 ELSE e.ret = 1 /\ IsMat(m, e.c, e.v.r, M.r) /\ MMul(m, e.c, M) = e.v
       [] e.op = "st.syinv" -> IF MRank(m, M) < M.r THEN e.ret = 0 ELSE e.ret = 1 /\ IsInverse(m, M, e.c)
       \* the first k rows and last k columns of the inverse
       [] e.op = "st.block" -> IF MRank(m, M) < M.r THEN e.ret = 0
                               ELSE /\ e.ret = 1 /\ IsMat(m, e.c, e.k, e.k)
                                    /\ IsInverse(m, M, e.inv)
                                    /\ \A i \in 1..e.k : \A j \in 1..e.k : e.c.e[i][j] = e.inv.e[i][M.r - e.k + j]

StructObj(o, e) ==
  IF e.op = "st.new"
  THEN (e.id :> [kind |-> e.kind, M |-> e.M, rho |-> IF e.kind \in {"cauchy", "clike"} THEN e.rho ELSE 0,
                 rs |-> IF e.kind \in {"mhankel", "mtoeplitz"} THEN e.rs ELSE <<>>, cs |-> IF e.kind \in {"mhankel", "mtoeplitz"} THEN e.cs ELSE <<>>]) @@ o
  ELSE o
=============================================================================
