------------------------------- MODULE PmlCRT -------------------------------
(* Multipoint evaluation objects (C13), bilinear transforms (C13), Chinese    *)
(* remaindering objects and subproduct trees (C14).                           *)
(* An evaluation object is, abstractly, its sequence of points (and for a     *)
(* geometric one its ratio and the two FFT flags); no operation except the    *)
(* flag setters changes it.                                                   *)
EXTENDS Algebra

MpOps == {"mp.new", "mp.copy", "mp.set", "mp.flags", "mp.pt", "mp.pts", "mp.eval", "mp.interp", "mp.teval", "mp.tint",
          "mp.evalv", "mp.interpv", "mp.tevalv", "mp.tintv", "mp.evalm", "mp.interpm", "mp.tevalm", "mp.tintm",
          "mp.long", "mp.right", "mp.iright", "mp.left", "mp.ileft", "mp.dense", "mp.prep",
          "tr.mul", "tr.mulv", "tr.mulm"}
CrtOps == {"crt.new", "crt.mod", "crt.comb", "subtree"}

Distinct(s) == \A i \in 1..Len(s) : \A j \in 1..Len(s) : s[i] = s[j] => i = j
IsPow2(n) == n \in {1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384}
Progression(p, s, q, n) == [i \in 1..n |-> FMul(p, s, FPow(p, q, i - 1))]

MpNewPost(m, e) ==
  LET n == Len(e.pts)
  IN /\ e.len = n /\ IsVec(m, e.pts, n) /\ Distinct(e.pts)
     /\ CASE e.kind = "general" -> e.pts = SubSeq(e.g, e.off + 1, e.off + e.n)
          [] e.kind = "get_general" -> n = e.n
          [] e.kind = "geometric" -> /\ e.pts = Progression(m, e.s, FMul(m, e.r, e.r), e.n)
                                     /\ e.gs = e.s
                                     /\ n > 1 => e.gq = FMul(m, e.r, e.r)
          [] e.kind = "get_geometric" -> n = e.n /\ e.pts = Progression(m, e.gs, e.gq, n)
          [] e.kind = "fft" -> n = e.n /\ \A i \in 1..n : FPow(m, e.pts[i], n) = One(m)
          [] e.kind = "get_fft" -> n >= e.n /\ IsPow2(n) /\ (n > 1 => n \div 2 < e.n) /\ \A i \in 1..n : FPow(m, e.pts[i], n) = One(m)

\* entry (i) of a vector of values over all points
AtPoints(v, i) == [k \in 1..Len(v) |-> v[k][i]]
AtPointsM(v, i, j) == [k \in 1..Len(v) |-> v[k].e[i][j]]

Interpolates(m, pts, f, v) == IsPoly(m, f) /\ Len(f) <= Len(pts) /\ PEvals(m, f, pts) = v
TransInterp(m, pts, v, f) == IsVec(m, v, Len(pts)) /\ PNorm(m, TEvals(m, v, pts, Len(pts))) = f
TransEval(m, pts, v, n) == PNorm(m, TEvals(m, v, pts, n))

MpPost(m, o, e) ==
  IF e.op = "mp.new" THEN MpNewPost(m, e)
  ELSE IF e.op = "tr.mul" THEN e.c = PMul(m, e.a, e.b)
  ELSE IF e.op = "tr.mulv" THEN e.c = [i \in 1..Len(e.a) |-> PMul(m, e.a[i], e.b[i])]
  ELSE IF e.op = "tr.mulm" THEN IsPMat(m, e.c, e.a.r, e.b.c) /\ PMMulEq(m, e.a, e.b, e.c)
  ELSE
  LET pts == o[e.id].pts
      n == Len(pts)
  IN CASE e.op = "mp.copy" -> e.len = n
       [] e.op \in {"mp.set", "mp.prep"} -> TRUE
       [] e.op = "mp.flags" -> e.fe = o[e.id].fe /\ e.fi = o[e.id].fi
       [] e.op = "mp.pt" -> e.c = pts[e.k + 1]
       [] e.op = "mp.pts" -> e.c = pts
       [] e.op = "mp.eval" -> e.c = PEvals(m, e.f, pts)
       [] e.op = "mp.interp" -> Interpolates(m, pts, e.c, e.v)
       [] e.op = "mp.teval" -> e.c = TransEval(m, pts, e.v, e.n)
       [] e.op = "mp.tint" -> TransInterp(m, pts, e.c, e.f)
       [] e.op = "mp.evalv" -> /\ Len(e.c) = n
                               /\ \A k \in 1..n : Len(e.c[k]) = Len(e.f)
                               /\ \A i \in 1..Len(e.f) : AtPoints(e.c, i) = PEvals(m, e.f[i], pts)
       [] e.op = "mp.interpv" -> /\ Len(e.c) = Len(e.v[1])
                                 /\ \A i \in 1..Len(e.c) : Interpolates(m, pts, e.c[i], AtPoints(e.v, i))
       [] e.op = "mp.tevalv" -> /\ Len(e.c) = Len(e.v[1])
                                /\ \A i \in 1..Len(e.c) : e.c[i] = TransEval(m, pts, AtPoints(e.v, i), e.n)
       [] e.op = "mp.tintv" -> /\ Len(e.c) = n
                               /\ \A k \in 1..n : Len(e.c[k]) = Len(e.f)
                               /\ \A i \in 1..Len(e.f) : TransInterp(m, pts, AtPoints(e.c, i), e.f[i])
       [] e.op = "mp.evalm" -> /\ Len(e.c) = n
                               /\ \A k \in 1..n : IsMat(m, e.c[k], e.f.r, e.f.c)
                               /\ \A i \in 1..e.f.r : \A j \in 1..e.f.c : AtPointsM(e.c, i, j) = PEvals(m, e.f.e[i][j], pts)
       [] e.op = "mp.interpm" -> /\ IsPMat(m, e.c, e.v[1].r, e.v[1].c)
                                 /\ \A i \in 1..e.c.r : \A j \in 1..e.c.c : Interpolates(m, pts, e.c.e[i][j], AtPointsM(e.v, i, j))
       [] e.op = "mp.tevalm" -> /\ IsPMat(m, e.c, e.v[1].r, e.v[1].c)
                                /\ \A i \in 1..e.c.r : \A j \in 1..e.c.c : e.c.e[i][j] = TransEval(m, pts, AtPointsM(e.v, i, j), e.n)
       [] e.op = "mp.tintm" -> /\ Len(e.c) = n
                               /\ \A k \in 1..n : IsMat(m, e.c[k], e.f.r, e.f.c)
                               /\ \A i \in 1..e.f.r : \A j \in 1..e.f.c : TransInterp(m, pts, AtPointsM(e.c, i, j), e.f.e[i][j])
       [] e.op = "mp.long" -> e.c = PEvals(m, e.f, Progression(m, pts[1], o[e.id].q, e.n))
       [] e.op = "mp.right" -> e.c = PEvals(m, PNorm(m, e.f), pts)
       [] e.op = "mp.iright" -> IsVec(m, e.c, n) /\ PEvals(m, PNorm(m, e.c), pts) = e.v
       [] e.op = "mp.left" -> e.c = TEvals(m, e.v, pts, n)
       [] e.op = "mp.ileft" -> IsVec(m, e.c, n) /\ TEvals(m, e.c, pts, n) = e.f
       [] e.op = "mp.dense" -> e.c = MkMat(n, n, LAMBDA i, j : FPow(m, pts[i], j - 1))

MpObj(o, e) ==
  CASE e.op = "mp.new" -> (e.id :> [pts |-> e.pts, q |-> e.gq, fe |-> e.fe, fi |-> e.fi]) @@ o
    [] e.op = "mp.copy" -> (e.new :> o[e.id]) @@ o
    [] e.op = "mp.set" -> (e.id :> [o[e.id] EXCEPT !.fe = IF e.which = "evaluate" THEN e.to ELSE @,
                                                   !.fi = IF e.which = "interpolate" THEN e.to ELSE @]) @@ o
    [] OTHER -> o

RECURSIVE PProd(_, _)
PProd(p, s) == IF s = <<>> THEN <<One(p)>> ELSE PMul(p, Head(s), PProd(p, Tail(s)))
TreeLevel(p, s) == [i \in 1..((Len(s) + 1) \div 2) |-> IF 2 * i <= Len(s) THEN PMul(p, s[2 * i - 1], s[2 * i]) ELSE s[2 * i - 1]]

CrtPost(m, o, e) ==
  CASE e.op = "crt.new" -> e.len = Len(e.q) /\ e.mods = e.q /\ e.master = PProd(m, e.q)
    [] e.op = "crt.mod" -> e.c = [i \in 1..Len(o[e.id].q) |-> PRem(m, e.f, o[e.id].q[i])]
    [] e.op = "crt.comb" -> LET q == o[e.id].q
                            IN /\ IsPoly(m, e.c)
                               /\ Deg(e.c) < SumSeq([i \in 1..Len(q) |-> Deg(q[i])])
                               /\ \A i \in 1..Len(q) : PRem(m, e.c, q[i]) = PRem(m, e.v[i], q[i])
    [] e.op = "subtree" -> /\ e.c[1] = e.q
                           /\ \A i \in 2..Len(e.c) : e.c[i] = TreeLevel(m, e.c[i - 1])
                           /\ Len(e.c[Len(e.c)]) = 1
CrtObj(o, e) == IF e.op = "crt.new" THEN (e.id :> [q |-> e.q]) @@ o ELSE o
=============================================================================
