------------------------------- MODULE PmlSeq -------------------------------
(* Sequences over (K[x]/x^d)^tau and their annihilators (C19). A sequence is *)
(* S[1..L], each term a tuple of tau polynomials; a bivariate polynomial f   *)
(* (f[k] the coefficient of y^(k-1)) acts by shifting the sequence.          *)
EXTENDS PmlBases

SeqOps == {"sq.mulp", "sq.mulb", "sq.add", "sq.idx", "sq.zero", "sq.check", "sq.kur", "sq.mkur", "sq.bm", "sq.minpoly"}

QTau(S) == IF S = <<>> THEN 0 ELSE Len(S[1])
QMod(m, f, d) == IF d < 0 THEN f ELSE PTrunc(m, f, d)
QWins(S, f) == IF f = <<>> THEN 0 ELSE Max(0, Len(S) - Len(f) + 1)
\* term i (from 1) of f.S modulo x^d (d < 0: exactly)
QAct(m, S, f, d, i) == [s \in 1..QTau(S) |->
   QMod(m, PMMul(m, RowMat(f), ColMat([k \in 1..Len(f) |-> S[i + k - 1][s]])).e[1][1], d)]
QMul(m, S, f, d) == [i \in 1..QWins(S, f) |-> QAct(m, S, f, d, i)]
QIsZero(T) == \A i \in 1..Len(T) : \A s \in 1..Len(T[i]) : T[i][s] = <<>>
QCancels(m, S, f, d) == QIsZero(QMul(m, S, f, d))

\* K-linear data of "x^a y^k acts on the first n windows modulo x^d"
QRow(m, S, d, n, k, a) ==
  LET tau == QTau(S)
  IN [w \in 1..(n * tau * d) |-> LET c == (w - 1) % d  s == ((w - 1) \div d) % tau  i == (w - 1) \div (d * tau)
                                 IN Coef(m, S[i + k + 1][s + 1], c - a)]
\* does some polynomial x^t y^j + (lower terms in y) cancel the sequence?
QExists(m, S, d, t, j) ==
  LET n == Len(S) - j  W == n * QTau(S) * d
      low == [q \in 1..(j * d) |-> QRow(m, S, d, n, (q - 1) \div d, (q - 1) % d)]
      top == QRow(m, S, d, n, j, t)
      M(rows) == [r |-> Len(rows), c |-> W, e |-> rows]
  IN IF n <= 0 \/ W = 0 THEN TRUE
     ELSE MRank(m, M(low \o <<top>>)) = MRank(m, M(low))

\* a candidate x^t y^j + ... that cancels, or has the largest degree and cannot be completed
QIsCand(m, S, d, t, g) ==
  LET j == Len(g) - 1
  IN /\ j >= 0 /\ j <= Max(Len(S) - 1, 0)
     /\ g[j + 1] = PMono(m, t)
     /\ \A k \in 1..Len(g) : IsPoly(m, g[k])
     /\ \/ QCancels(m, S, g, d)
        \/ j = Len(S) - 1 /\ ~QExists(m, S, d, t, j)
\* degree j is the least possible for a leading term x^t y^j
QMinDeg(m, S, d, t, j) == j > 0 => ~QExists(m, S, d, t, j - 1)
\* full family: each candidate has the least degree
QIsGen(m, S, d, t, g) == (\A k \in 1..Len(g) : Len(g[k]) <= d) /\ QIsCand(m, S, d, t, g) /\ QMinDeg(m, S, d, t, Len(g) - 1)
\* pruned family: among the candidates for x^0 .. x^t one has the least degree for x^t
QPruned(m, S, d, gens, full) ==
  /\ gens[1] # <<>>
  /\ \A t \in 1..d : (full \/ gens[t] # <<>>) => QIsCand(m, S, d, t - 1, gens[t])
  /\ \A t \in 1..d : LET J == MinSeq([k \in 1..t |-> IF gens[k] = <<>> THEN Len(S) ELSE Len(gens[k]) - 1], Len(S))
                     IN QMinDeg(m, S, d, t - 1, J)

QHank(S, e) == LET tau == QTau(S) IN MkMat(e + 1, e * tau, LAMBDA i, j : S[i + ((j - 1) % e)][((j - 1) \div e) + 1])
QRows(gens, n) == MkMat(Len(gens), n, LAMBDA i, j : IF j <= Len(gens[i]) THEN gens[i][j] ELSE <<>>)
QShift(e, d, hnf) == [i \in 1..(e + 1) |-> IF hnf THEN (i - 1) * d ELSE 0]

SeqPost(m, e) ==
  CASE e.op = "sq.mulp" -> e.c = [i \in 1..Len(e.a) |-> [s \in 1..Len(e.a[i]) |-> QMod(m, PMul(m, e.a[i][s], e.f), e.d)]]
    [] e.op = "sq.mulb" -> IF e.f = <<>> THEN QIsZero(e.c) ELSE e.c = QMul(m, e.a, e.f, e.d)
    [] e.op = "sq.add" -> e.c = [i \in 1..Min(Len(e.a), Len(e.b)) |-> [s \in 1..Min(Len(e.a[i]), Len(e.b[i])) |-> PAdd(m, e.a[i][s], e.b[i][s])]]
    [] e.op = "sq.idx" -> LET nz == {i \in 1..Len(e.a) : e.a[i] # <<>>}
                          IN e.ret = IF e.a = <<>> THEN -1 ELSE IF nz = {} THEN Len(e.a) ELSE (CHOOSE i \in nz : \A j \in nz : i <= j) - 1
    [] e.op = "sq.zero" -> e.ret = (\A i \in 1..Len(e.a) : e.a[i] = <<>>)
    [] e.op = "sq.check" -> e.ret = (\A i \in 1..Len(e.g) : QCancels(m, e.a, e.g[i], e.d))
    [] e.op = "sq.kur" -> /\ Len(e.c) = e.d
                          /\ \A t \in 1..e.d : QIsGen(m, e.a, e.d, t - 1, e.c[t])
    [] e.op = "sq.mkur" -> Len(e.c) = e.d /\ QPruned(m, e.a, e.d, e.c, e.fill)
    [] e.op = "sq.bm" -> LET n == Len(e.a) \div 2
                         IN /\ Len(e.c) = n + 1
                            /\ \A i \in 1..Len(e.c) : Len(e.c[i]) <= n + 1 /\ \A k \in 1..Len(e.c[i]) : IsPoly(m, e.c[i][k])
                            /\ IsAppBasis(m, QRows(e.c, n + 1), QHank(e.a, n), Uni(e.d, n * QTau(e.a)), QShift(n, e.d, e.hnf), e.form)
    \* non-degenerate: the n x n Hankel matrix is invertible modulo x
    [] e.op = "sq.minpoly" -> LET n == Len(e.a) \div 2
                                  H == MkMat(n, n, LAMBDA i, j : Coef(m, e.a[i + j - 1][1], 0))
                              IN n >= 1 /\ MRank(m, H) = n =>
                                   /\ Len(e.c) = n + 1 /\ e.c[n + 1] = <<One(m)>>
                                   /\ \A k \in 1..n : IsPoly(m, e.c[k]) /\ Len(e.c[k]) <= e.d
                                   /\ \A i \in 1..n : QIsZero(<<QAct(m, e.a, e.c, e.d, i)>>)
=============================================================================
