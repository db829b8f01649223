------------------------------- MODULE PmlMul -------------------------------
(* Products (C01), middle products (C02).  `m` is the current modulus, `obj` *)
(* the live precomputed objects, `e` a completed call.                       *)
EXTENDS Algebra

MulOps == {"mul", "mulvec", "vecmul", "multrunc", "mul.s", "mul.p", "mul.pmc", "mul.cpm",
           "vmul.s", "vmul.p", "lm.new", "lm.mul", "mp", "pmp", "tmul"}

VecEqCol(p, v, M) == IsPVec(p, v, M.r) /\ ColMat(v) = M
PMScale(p, s, A) == MkMat(A.r, A.c, LAMBDA i, j : PMul(p, A.e[i][j], s))

\* the middle product of a and c for (dA, dB): coefficients dA .. dA+dB of a*c
MulPost(m, obj, e) ==
  CASE e.op = "mul" -> IsPMat(m, e.c, e.a.r, e.b.c) /\ PMMulEq(m, e.a, e.b, e.c)
    [] e.op = "mulvec" -> IsPVec(m, e.c, e.a.r) /\ PMMulEq(m, e.a, ColMat(e.b), ColMat(e.c))
    [] e.op = "vecmul" -> IsPVec(m, e.c, e.b.c) /\ PMMulEq(m, RowMat(e.a), e.b, RowMat(e.c))
    [] e.op = "multrunc" -> e.c = PMMulTrunc(m, e.a, e.b, e.t)
    [] e.op = "mul.s" -> e.c = PMScale(m, PConst(m, e.s), e.a)
    [] e.op = "mul.p" -> e.c = PMScale(m, e.s, e.a)
    [] e.op = "mul.pmc" -> IsPMat(m, e.c, e.a.r, e.b.c) /\ PMMulEq(m, e.a, PMOfMat(m, e.b), e.c)
    [] e.op = "mul.cpm" -> IsPMat(m, e.c, e.a.r, e.b.c) /\ PMMulEq(m, PMOfMat(m, e.a), e.b, e.c)
    [] e.op = "vmul.s" -> RowMat(e.c) = PMScale(m, PConst(m, e.s), RowMat(e.a))
    [] e.op = "vmul.p" -> RowMat(e.c) = PMScale(m, e.s, RowMat(e.a))
    [] e.op = "lm.new" -> e.nr = e.a.r /\ e.nc = e.a.c /\ e.da = PMDeg(e.a) /\ e.db = e.dB
    [] e.op = "lm.mul" -> LET a == obj[e.id].a
                          IN IsPMat(m, e.c, a.r, e.b.c) /\ PMMulEq(m, a, e.b, e.c)
    [] e.op = "mp" -> e.b = PMMulSlice(m, e.a, e.c, e.da, e.db + 1)
    [] e.op = "pmp" -> e.b = PSlice(m, PMul(m, e.a, e.c), e.da, e.db + 1)
    [] e.op = "tmul" -> e.b = PMMulSlice(m, MkMat(e.a.r, e.a.c, LAMBDA i, j : PRev(m, e.a.e[i][j], e.da)), e.c, e.da, e.db + 1)

\* abstract state of an object: what was given to its constructor
MulObj(obj, e) == IF e.op = "lm.new" THEN (e.id :> [a |-> e.a]) @@ obj ELSE obj
=============================================================================
