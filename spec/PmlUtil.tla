------------------------------- MODULE PmlUtil -------------------------------
(* Elementary operations on polynomial matrices and vectors (C03), column     *)
(* collapses and linearisations (C12).                                        *)
EXTENDS Algebra

UtilOps == {"clear", "clearw", "ident", "iszero", "viszero", "isident", "isidentn", "isconst", "deg", "vdeg",
  "getcoeff", "setcoeff", "transp", "mirror", "trunc", "vtrunc", "truncrow", "trunccol",
  "shl", "vshl", "shlrow", "shlcol", "rev", "rowrev", "colrev", "eval", "evalm", "random", "vrandom", "mrandom",
  "convc", "pm2mp", "mp2pm", "pm2mpo", "mp2pmo", "add", "addc", "sub", "subcr", "subcl",
  "vadd", "vaddc", "vsub", "vsubcr", "vsubcl", "neg", "vneg", "paddls", "vaddls", "addls",
  "hjoin", "collc", "collnc", "parlin", "parlind", "plmul", "plmp"}

Map1(A, F(_)) == MkMat(A.r, A.c, LAMBDA i, j : F(A.e[i][j]))
VMap1(v, F(_)) == [i \in 1..Len(v) |-> F(v[i])]
ShiftL(p, f, n) == IF n >= 0 THEN PShl(p, f, n) ELSE PShr(p, f, -n)
RevTo(p, f, hi) == IF hi < 0 THEN <<>> ELSE PRev(p, f, hi)
AddLS(p, f, g, k) == PAdd(p, f, PShl(p, g, k))
EntryDegLt(A, D(_, _)) == \A i \in 1..A.r : \A j \in 1..A.c : Deg(A.e[i][j]) < D(i, j)

\* polynomial matrix as a list of coefficient matrices
OfList(p, L, n) == LET r == L[1].r  c == L[1].c  k == Min(n, Len(L))
                   IN MkMat(r, c, LAMBDA i, j : PNorm(p, [t \in 1..k |-> L[t].e[i][j]]))
ToList(p, A, n) == [k \in 1..n |-> PMCoef(p, A, k - 1)]
SameZero(c, d) == c = PMZero(d.r, d.c)

RECURSIVE JoinPieces(_, _, _, _)
\* sum over the pieces f_t of x^(t*w) f_t
JoinPieces(p, fs, w, t) == IF t > Len(fs) THEN <<>>
                           ELSE PAdd(p, PShl(p, fs[t], (t - 1) * w), JoinPieces(p, fs, w, t + 1))

\* Column partial linearisation of A: column j becomes columns
\* cols[j]..cols[j+1]-1 (0-based cols); they are the slices of width w_j+1 of
\* (A div x^dinf), every one but the last of degree <= w_j.
ParLin(p, A, L, cols, w, tgt, dinf) ==
  /\ Len(cols) = A.c + 1 /\ cols[1] = 0
  /\ \A j \in 1..A.c : LET t == Max(0, tgt[j] - dinf) IN cols[j + 1] - cols[j] = (t + w[j] + 1) \div (w[j] + 1)
  /\ IsPMat(p, L, A.r, cols[A.c + 1])
  /\ \A i \in 1..A.r : \A j \in 1..A.c :
       LET pcs == SubSeq(L.e[i], cols[j] + 1, cols[j + 1])
       IN /\ \A t \in 1..(Len(pcs) - 1) : Deg(pcs[t]) <= w[j]
          /\ JoinPieces(p, pcs, w[j] + 1, 1) = PShr(p, A.e[i][j], dinf)

UtilPost(m, e) ==
  CASE e.op = "clear" -> e.c = PMZero(e.a.r, e.a.c)
    [] e.op = "clearw" -> e.c = MkMat(e.a.r, e.a.c, LAMBDA i, j :
            IF i > e.r0 /\ i <= e.r0 + e.nr /\ j > e.c0 /\ j <= e.c0 + e.nc THEN <<>> ELSE e.a.e[i][j])
    [] e.op = "ident" -> e.c = PMIdent(m, e.n)
    [] e.op = "iszero" -> e.c = PMIsZero(e.a)
    [] e.op = "viszero" -> e.c = (\A i \in DOMAIN e.a : e.a[i] = <<>>)
    [] e.op = "isident" -> e.c = (e.a.r = e.a.c /\ e.a = PMIdent(m, e.a.r))
    [] e.op = "isidentn" -> e.c = (e.a = PMIdent(m, e.n))
    [] e.op = "isconst" -> e.c = (PMDeg(e.a) <= 0)
    [] e.op = "deg" -> e.c = PMDeg(e.a)
    [] e.op = "vdeg" -> e.c = MaxSeq([i \in 1..Len(e.a) |-> Deg(e.a[i])], -1)
    [] e.op = "getcoeff" -> e.c = PMCoef(m, e.a, e.k)
    [] e.op = "setcoeff" -> e.c = MkMat(e.a.r, e.a.c, LAMBDA i, j :
            PNorm(m, [t \in 1..Max(Len(e.a.e[i][j]), e.k + 1) |-> IF t = e.k + 1 THEN e.b.e[i][j] ELSE Coef(m, e.a.e[i][j], t - 1)]))
    [] e.op = "transp" -> e.c = Transp(e.a)
    [] e.op = "mirror" -> e.c = [i \in 1..Len(e.a) |-> e.a[Len(e.a) + 1 - i]]
    [] e.op = "trunc" -> e.c = PMTrunc(m, e.a, e.k)
    [] e.op = "vtrunc" -> e.c = VMap1(e.a, LAMBDA f : PTrunc(m, f, e.k))
    [] e.op = "truncrow" -> e.c = MkMat(e.a.r, e.a.c, LAMBDA i, j : IF i = e.i0 + 1 THEN PTrunc(m, e.a.e[i][j], e.k) ELSE e.a.e[i][j])
    [] e.op = "trunccol" -> e.c = MkMat(e.a.r, e.a.c, LAMBDA i, j : IF j = e.i0 + 1 THEN PTrunc(m, e.a.e[i][j], e.k) ELSE e.a.e[i][j])
    [] e.op = "shl" -> e.c = Map1(e.a, LAMBDA f : ShiftL(m, f, e.k))
    [] e.op = "vshl" -> e.c = VMap1(e.a, LAMBDA f : ShiftL(m, f, e.k))
    [] e.op = "shlrow" -> e.c = MkMat(e.a.r, e.a.c, LAMBDA i, j : IF i = e.i0 + 1 THEN ShiftL(m, e.a.e[i][j], e.k) ELSE e.a.e[i][j])
    [] e.op = "shlcol" -> e.c = MkMat(e.a.r, e.a.c, LAMBDA i, j : IF j = e.i0 + 1 THEN ShiftL(m, e.a.e[i][j], e.k) ELSE e.a.e[i][j])
    [] e.op = "rev" -> e.c = Map1(e.a, LAMBDA f : RevTo(m, f, e.k))
    [] e.op = "rowrev" -> e.c = MkMat(e.a.r, e.a.c, LAMBDA i, j : RevTo(m, e.a.e[i][j], e.hi[i]))
    [] e.op = "colrev" -> e.c = MkMat(e.a.r, e.a.c, LAMBDA i, j : RevTo(m, e.a.e[i][j], e.hi[j]))
    [] e.op = "eval" -> e.c = PMEval(m, e.a, e.x)
    [] e.op = "evalm" -> IF e.a = <<>> THEN e.c = MZero(m, 0, 0) ELSE e.c = PMEval(m, OfList(m, e.a, Len(e.a)), e.x)
    [] e.op = "random" -> IsPMat(m, e.c, e.r, e.n) /\ EntryDegLt(e.c, LAMBDA i, j : e.d[i][j])
    [] e.op = "vrandom" -> IsPVec(m, e.c, e.n) /\ \A i \in 1..e.n : Deg(e.c[i]) < e.d
    [] e.op = "mrandom" -> Len(e.c) = e.d /\ \A k \in 1..e.d : IsMat(m, e.c[k], e.r, e.n)
    [] e.op = "convc" -> e.c = PMOfMat(m, e.a)
    [] e.op = "pm2mp" -> e.c = ToList(m, e.a, PMDeg(e.a) + 1)
    [] e.op = "pm2mpo" -> e.c = ToList(m, e.a, e.k)
    [] e.op = "mp2pm" -> IF e.a = <<>> THEN SameZero(e.c, e.d) ELSE e.c = OfList(m, e.a, Len(e.a))
    [] e.op = "mp2pmo" -> IF e.a = <<>> \/ e.k = 0 THEN PMIsZero(e.c) ELSE e.c = OfList(m, e.a, e.k)
    [] e.op = "add" -> e.c = PMAdd(m, e.a, e.b)
    [] e.op = "addc" -> e.c = PMAdd(m, e.a, PMOfMat(m, e.b))
    [] e.op = "sub" -> e.c = PMSub(m, e.a, e.b)
    [] e.op = "subcr" -> e.c = PMSub(m, e.a, PMOfMat(m, e.b))
    [] e.op = "subcl" -> e.c = PMSub(m, PMOfMat(m, e.a), e.b)
    [] e.op = "vadd" -> RowMat(e.c) = PMAdd(m, RowMat(e.a), RowMat(e.b))
    [] e.op = "vaddc" -> RowMat(e.c) = PMAdd(m, RowMat(e.a), PMOfMat(m, RowMat(e.b)))
    [] e.op = "vsub" -> RowMat(e.c) = PMSub(m, RowMat(e.a), RowMat(e.b))
    [] e.op = "vsubcr" -> RowMat(e.c) = PMSub(m, RowMat(e.a), PMOfMat(m, RowMat(e.b)))
    [] e.op = "vsubcl" -> RowMat(e.c) = PMSub(m, PMOfMat(m, RowMat(e.a)), RowMat(e.b))
    [] e.op = "neg" -> e.c = PMNeg(m, e.a)
    [] e.op = "vneg" -> RowMat(e.c) = PMNeg(m, RowMat(e.a))
    [] e.op = "paddls" -> e.c = AddLS(m, e.a, e.b, e.k)
    [] e.op = "vaddls" -> e.c = [i \in 1..Len(e.a) |-> AddLS(m, e.a[i], e.b[i], e.k)]
    [] e.op = "addls" -> e.c = MkMat(e.a.r, e.a.c, LAMBDA i, j : AddLS(m, e.a.e[i][j], e.b.e[i][j], e.k))
    [] e.op = "hjoin" -> e.c = MkMat(e.a.r, e.a.c + e.b.c, LAMBDA i, j : IF j <= e.a.c THEN e.a.e[i][j] ELSE e.b.e[i][j - e.a.c])
    [] e.op = "collc" -> e.c = MkMat(e.a.r, e.a.c \div e.s, LAMBDA i, j :
            JoinPieces(m, SubSeq(e.a.e[i], (j - 1) * e.s + 1, j * e.s), e.d, 1))
    [] e.op = "collnc" -> e.c = MkMat(e.a.r, e.s, LAMBDA i, j :
            JoinPieces(m, [k \in 1..(e.a.c \div e.s) |-> e.a.e[i][j + (k - 1) * e.s]], e.d, 1))
    [] e.op = "parlin" -> ParLin(m, e.a, e.c, e.cols, e.w, e.t, 0)
    [] e.op = "parlind" -> ParLin(m, e.a, e.c, e.cols, e.w, e.t, e.dinf)
    [] e.op = "plmul" -> IsPMat(m, e.c, e.a.r, e.b.c) /\ PMMulEq(m, e.a, e.b, e.c)
    [] e.op = "plmp" -> e.c = PMMulSlice(m, e.a, e.b, e.da, e.db + 1)
=============================================================================
