------------------------------ MODULE PmlForms ------------------------------
(* Shifted degrees, pivots, leading matrices and (shifted) reduced, weak     *)
(* Popov, ordered weak Popov and Popov forms (C04).  Definitions are given   *)
(* for rows; the column notions are those of the transpose.                  *)
EXTENDS Algebra

FormOps == {"rdeg", "cdeg", "rpiv", "cpiv", "degmat", "degmatr", "degmatc", "rlead", "clead",
            "risform", "cisform", "rgetform", "cgetform", "amp"}

NONEF == 0  REDUCEDF == 1  WEAKF == 2  OWPF == 3  POPOVF == 4

MinOf(s) == MinSeq(Tail(s), Head(s))
\* s-degree of a vector: maximum of deg + shift over nonzero entries, min(s)-1 if zero
VecSDeg(v, s) == MaxSeq([j \in 1..Len(v) |-> IF v[j] = <<>> THEN MinOf(s) - 1 ELSE Deg(v[j]) + s[j]], MinOf(s) - 1)
RowDegs(A, s) == [i \in 1..A.r |-> VecSDeg(A.e[i], s)]
\* pivot index (1-based; 0 for a zero vector): rightmost entry reaching the s-degree
VecPiv(v, s) == LET d == VecSDeg(v, s)
                    S == {j \in 1..Len(v) : v[j] # <<>> /\ Deg(v[j]) + s[j] = d}
                IN IF S = {} THEN 0 ELSE CHOOSE j \in S : \A k \in S : k <= j
RowPivs(A, s) == [i \in 1..A.r |-> VecPiv(A.e[i], s)]
PivDegs(A, s) == [i \in 1..A.r |-> LET j == VecPiv(A.e[i], s) IN IF j = 0 THEN -1 ELSE Deg(A.e[i][j])]
LeadMat(p, A, s) == LET rd == RowDegs(A, s)
  IN MkMat(A.r, A.c, LAMBDA i, j : IF A.e[i][j] = <<>> THEN Zero(p) ELSE Coef(p, A.e[i][j], rd[i] - s[j]))

IsReduced(p, A, s) == MRank(p, LeadMat(p, A, s)) = A.r
IsWeak(A, s) == LET v == RowPivs(A, s)
                IN /\ \A i \in 1..A.r : v[i] # 0
                   /\ \A i, k \in 1..A.r : i # k => v[i] # v[k]
IsOwp(A, s) == LET v == RowPivs(A, s)
               IN /\ \A i \in 1..A.r : v[i] # 0
                  /\ \A i \in 1..(A.r - 1) : v[i] < v[i + 1]
IsPopov(p, A, s) == /\ IsOwp(A, s)
                    /\ LET v == RowPivs(A, s)
                       IN \A i \in 1..A.r : LET f == A.e[i][v[i]]
                            IN /\ f[Len(f)] = One(p)
                               /\ \A k \in 1..A.r : k # i => Deg(A.e[k][v[i]]) < Deg(f)
HasForm(p, A, s, form) ==
  CASE form = NONEF -> TRUE
    [] form = REDUCEDF -> IsReduced(p, A, s)
    [] form = WEAKF -> IsWeak(A, s)
    [] form = OWPF -> IsOwp(A, s)
    [] form = POPOVF -> IsPopov(p, A, s)
Strongest(p, A, s) == IF IsPopov(p, A, s) THEN POPOVF ELSE IF IsOwp(A, s) THEN OWPF
                      ELSE IF IsWeak(A, s) THEN WEAKF ELSE IF IsReduced(p, A, s) THEN REDUCEDF ELSE NONEF

Off1(v) == [i \in 1..Len(v) |-> v[i] - 1]     \* 1-based to 0-based
SDegMat(A, s) == MkMat(A.r, A.c, LAMBDA i, j : IF A.e[i][j] = <<>> THEN MinOf(s) - 1 ELSE Deg(A.e[i][j]) + s[j])

FormPost(m, e) ==
  CASE e.op = "amp" -> e.c = MaxSeq(e.s, e.s[1]) - MinOf(e.s)
    [] e.op = "rdeg" -> e.c = RowDegs(e.a, e.s)
    [] e.op = "cdeg" -> e.c = RowDegs(Transp(e.a), e.s)
    [] e.op = "rpiv" -> e.c = Off1(RowPivs(e.a, e.s)) /\ e.d = PivDegs(e.a, e.s)
    [] e.op = "cpiv" -> e.c = Off1(RowPivs(Transp(e.a), e.s)) /\ e.d = PivDegs(Transp(e.a), e.s)
    [] e.op = "degmat" -> e.c = MkMat(e.a.r, e.a.c, LAMBDA i, j : Deg(e.a.e[i][j]))
    [] e.op = "degmatr" -> e.c = SDegMat(e.a, e.s)
    [] e.op = "degmatc" -> e.c = Transp(SDegMat(Transp(e.a), e.s))
    [] e.op = "rlead" -> e.c = LeadMat(m, e.a, e.s)
    [] e.op = "clead" -> e.c = Transp(LeadMat(m, Transp(e.a), e.s))
    [] e.op = "risform" -> e.c = HasForm(m, e.a, e.s, e.form)
    [] e.op = "cisform" -> e.c = HasForm(m, Transp(e.a), e.s, e.form)
    [] e.op = "rgetform" -> e.c = Strongest(m, e.a, e.s)
    [] e.op = "cgetform" -> e.c = Strongest(m, Transp(e.a), e.s)
=============================================================================
