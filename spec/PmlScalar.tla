----------------------------- MODULE PmlScalar -----------------------------
(* Scalar and univariate helpers (C23): Taylor shift, vector inversion,      *)
(* multiplicative orders, prime queries, special matrices. The modulus may   *)
(* be composite here (small ones only).                                      *)
EXTENDS Algebra

ScalarOps == {"sc.shift", "sc.inv", "sc.precomp", "sc.order", "sc.elt", "sc.fft", "sc.monic", "sc.Z", "sc.J", "sc.diag", "sc.clear"}

RECURSIVE IGcd(_, _)
IGcd(a, b) == IF b = 0 THEN a ELSE IGcd(b, a % b)
\* units: for a wide modulus (always prime in recorded traces), the nonzero elements
IsUnit(m, a) == IF Wide(m) THEN a # Zero(m) ELSE IGcd(a, m[1]) = 1
IsOrder(m, a, o) == /\ o >= 1
                    /\ FPow(m, a, o) = One(m)
                    /\ \A q \in 2..o : o % q = 0 => FPow(m, a, o \div q) # One(m)
OrderAtLeast(m, a, n) == \A i \in 1..(n - 1) : FPow(m, a, i) # One(m)
StrongOrder(m, a, n) == \A i \in 1..(n - 1) : IsUnit(m, FSub(m, FPow(m, a, i), One(m)))
EltOk(m, a, n, strong) == IsUnit(m, a) /\ OrderAtLeast(m, a, n) /\ (strong => StrongOrder(m, a, n))
\* 100 trials fail with negligible probability when at least a sixth of the elements qualify
Plenty(m, n, strong) == IF Wide(m) THEN m[1] >= 1024 /\ n <= 1000
                        ELSE m[1] <= 300 /\ 6 * Cardinality({a \in 1..(m[1] - 1) : EltOk(m, a, n, strong)}) >= m[1]
\* largest k with 2^k | p - 1
RECURSIVE V2(_)
V2(n) == IF n % 2 = 1 THEN 0 ELSE 1 + V2(n \div 2)
Twos(m) == IF Wide(m) THEN (IF m[2] > 1 THEN V2(m[2] - 1) ELSE 30 + V2(m[1])) ELSE V2(m[1] - 1)
Below25(m) == IF Wide(m) THEN m[1] = 0 /\ m[2] < 33554432 ELSE TRUE

ScalarPost(m, e) ==
  CASE e.op = "sc.shift" -> e.c = PTaylor(m, e.f, e.a)
    [] e.op = "sc.inv" -> /\ IsVec(m, e.c, Len(e.a))
                          /\ \A i \in 1..Len(e.a) : FMul(m, e.a[i], e.c[i]) = One(m)
    [] e.op = "sc.precomp" -> e.c = [i \in 1..Len(e.a) |-> FMul(m, e.a[i], e.x)]
    [] e.op = "sc.order" -> IF IsUnit(m, e.a) THEN IsOrder(m, e.a, e.ret) ELSE e.ret = -1
    [] e.op = "sc.elt" -> /\ IsElt(m, e.c)
                          /\ e.c # Zero(m) => EltOk(m, e.c, e.ord, e.strong)
                          /\ e.tr >= 100 /\ Plenty(m, e.ord, e.strong) => e.c # Zero(m)
    [] e.op = "sc.fft" -> /\ e.isfft = e.fft
                          /\ \A k \in 1..Len(e.ready) : e.ready[k] = (e.fft /\ k - 1 <= Twos(m) /\ k - 1 <= 25)
                          /\ e.type = IF e.fft THEN 0 ELSE IF Below25(m) THEN 1 ELSE 2
    [] e.op = "sc.monic" -> e.ret = (e.a # <<>> /\ e.a[Len(e.a)] = One(m))
    [] e.op = "sc.Z" -> e.c = MkMat(e.n, e.n, LAMBDA i, j : IF i = 1 /\ j = e.n THEN e.a ELSE IF i = j + 1 THEN One(m) ELSE Zero(m))
    [] e.op = "sc.J" -> e.c = MkMat(e.n, e.n, LAMBDA i, j : IF i + j = e.n + 1 THEN One(m) ELSE Zero(m))
    [] e.op = "sc.diag" -> e.c = MkMat(Len(e.a), Len(e.a), LAMBDA i, j : IF i = j THEN e.a[i] ELSE Zero(m))
    [] e.op = "sc.clear" -> e.c = MkMat(e.a.r, e.a.c, LAMBDA i, j : IF i > e.r0 /\ i <= e.r0 + e.nr /\ j > e.c0 /\ j <= e.c0 + e.nc THEN Zero(m) ELSE e.a.e[i][j])
=============================================================================
