------------------------------ MODULE PmlBivar ------------------------------
(* Bivariate polynomials (C18): f = sum of f[i](X) Y^(i-1), the last         *)
(* coefficient nonzero.                                                      *)
EXTENDS Algebra

BivarOps == {"bv.add", "bv.sub", "bv.muln", "bv.mulk", "bv.mul", "bv.eq", "bv.shx", "bv.shy", "bv.tx", "bv.ty", "bv.smul", "bv.eval",
             "bv.setc", "bv.deg", "bv.new", "bv.kron", "bv.unkron", "bv.rand", "bv.res"}

BC(f, i) == IF i >= 1 /\ i <= Len(f) THEN f[i] ELSE <<>>
RECURSIVE BNorm(_)
BNorm(f) == IF f = <<>> THEN f ELSE IF f[Len(f)] = <<>> THEN BNorm(SubSeq(f, 1, Len(f) - 1)) ELSE f
IsBiv(m, f) == (\A i \in 1..Len(f) : IsPoly(m, f[i])) /\ (f = <<>> \/ f[Len(f)] # <<>>)
BMk(n, F(_)) == BNorm([i \in 1..n |-> F(i)])
BMulCoef(m, a, b, k) ==       \* coefficient of Y^(k-1) of the product, as a 1 x 1 polynomial matrix product
  LET lo == Max(1, k - Len(b) + 1)  hi == Min(k, Len(a))  n == hi - lo + 1
  IN PMMul(m, RowMat([i \in 1..n |-> a[lo + i - 1]]), ColMat([i \in 1..n |-> b[k + 1 - (lo + i - 1)]])).e[1][1]
BMul(m, a, b) == IF a = <<>> \/ b = <<>> THEN <<>> ELSE BMk(Len(a) + Len(b) - 1, LAMBDA k : BMulCoef(m, a, b, k))

\* the Sylvester matrix, whose determinant is the resultant in Y
Sylv(f, g) == LET nf == Len(f) - 1  ng == Len(g) - 1
              IN MkMat(nf + ng, nf + ng, LAMBDA i, j : IF i <= ng THEN BC(f, nf + 1 - (j - i)) ELSE BC(g, ng + 1 - (j - (i - ng))))
Resultant(m, f, g) == IF f = <<>> \/ g = <<>> THEN <<>> ELSE PMDet(m, Sylv(f, g))
BHuge(m) == Wide(m) /\ m[1] >= 16384
Cbrt(n) == CHOOSE k \in 0..n : k * k * k <= n /\ (k + 1) * (k + 1) * (k + 1) > n

BivarPost(m, e) ==
  CASE e.op = "bv.add" -> e.c = BMk(Max(Len(e.a), Len(e.b)), LAMBDA i : PAdd(m, BC(e.a, i), BC(e.b, i)))
    [] e.op = "bv.sub" -> e.c = BMk(Max(Len(e.a), Len(e.b)), LAMBDA i : PSub(m, BC(e.a, i), BC(e.b, i)))
    [] e.op \in {"bv.muln", "bv.mulk", "bv.mul"} -> e.c = BMul(m, e.a, e.b)
    [] e.op = "bv.eq" -> e.ret = (e.a = e.b) /\ e.ne = (e.a # e.b)
    [] e.op = "bv.shx" -> e.c = BMk(Len(e.a), LAMBDA i : IF e.s >= 0 THEN PShl(m, e.a[i], e.s) ELSE PShr(m, e.a[i], -e.s))
    [] e.op = "bv.shy" -> e.c = BMk(IF e.a = <<>> THEN 0 ELSE Max(0, Len(e.a) + e.s), LAMBDA i : BC(e.a, i - e.s))
    [] e.op = "bv.tx" -> e.c = BMk(Len(e.a), LAMBDA i : PTrunc(m, e.a[i], e.s))
    [] e.op = "bv.ty" -> e.c = BMk(Min(Len(e.a), e.s), LAMBDA i : e.a[i])
    [] e.op = "bv.smul" -> e.c = BMk(Len(e.a), LAMBDA i : PScale(m, e.s, e.a[i]))
    [] e.op = "bv.eval" -> e.c = PNorm(m, [i \in 1..Len(e.a) |-> PEval(m, e.a[i], e.s)])
    [] e.op = "bv.setc" -> e.c = BMk(Max(Len(e.a), e.k + 1), LAMBDA i : IF i = e.k + 1 THEN e.x ELSE BC(e.a, i))
    [] e.op = "bv.deg" -> /\ e.z = (e.a = <<>>)
                          /\ e.y = Len(e.a) - 1
                          /\ e.x = MaxSeq([i \in 1..Len(e.a) |-> Deg(e.a[i])], -1)
                          /\ e.t = MaxSeq([i \in 1..Len(e.a) |-> IF e.a[i] = <<>> THEN -1 ELSE Deg(e.a[i]) + i - 1], -1)
    [] e.op = "bv.new" -> e.c = BNorm(e.v)
    \* f(X, X^(s+1))
    [] e.op = "bv.kron" -> e.c = PNorm(m, [t \in 1..(Len(e.v) * (e.s + 1)) |-> Coef(m, BC(e.v, ((t - 1) \div (e.s + 1)) + 1), (t - 1) % (e.s + 1))])
    [] e.op = "bv.unkron" -> e.c = BMk((Len(e.a) + e.s) \div (e.s + 1), LAMBDA i : PSlice(m, e.a, (i - 1) * (e.s + 1), e.s + 1))
    [] e.op = "bv.rand" -> IsBiv(m, e.c) /\ Len(e.c) <= e.dy /\ \A i \in 1..Len(e.c) : Len(e.c[i]) <= e.dx
    \* evaluation / interpolation: exact whenever it succeeds, and it does over huge fields;
    \* block algorithms: for generic operands, the resultant up to a constant factor
    [] e.op = "bv.res" ->
         LET R == Resultant(m, e.f, e.g)  nf == Len(e.f) - 1  ng == Len(e.g) - 1
         IN /\ e.ret \in {0, 1}
            /\ e.alg = "ei" \/ nf <= 0 \/ ng <= 0 => (e.ret = 1 => e.c = R) /\ (BHuge(m) => e.ret = 1)
            /\ e.alg # "ei" /\ nf >= 1 /\ ng >= 1 /\ e.ret = 1 => /\ R # <<>> /\ e.c # <<>>
                                            /\ PRem(m, R, e.c) = <<>>
            /\ e.alg = "villard" /\ e.gen /\ Cbrt(Max(nf, ng)) <= Min(nf, ng) => e.ret = 1 /\ Deg(e.c) = Deg(R)
            /\ e.alg = "tdeg" /\ e.gen /\ Cbrt((nf + ng) \div 2) <= Min(nf, ng) => e.ret = 1 /\ Deg(e.c) = Deg(R)
=============================================================================
