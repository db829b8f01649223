----------------------------- MODULE PmlSession -----------------------------
(* Sessions (C22): a user program works in several fields (worlds), each with *)
(* its registers (polynomial matrices) and its precomputed objects, and       *)
(* switches between them.  A session is one object whose abstract value is    *)
(* what the postconditions alone determine; nothing a call leaves behind in   *)
(* the library (caches, scratch storage, the previous modulus) may show.      *)
(*                                                                            *)
(* abstract value: w  current world          P[w] modulus of world w          *)
(*                 R[w] its registers        O[w] its precomputed objects     *)
EXTENDS Algebra

SessionOps == {"ss.start", "ss.set", "ss.op", "ss.switch"}

\* the call e as an ordinary call: register operands replaced by their values
SubCall(s, e) ==
  LET R == s.R[s.w]
      x == IF e.ra > 0 THEN (e.fa :> R[e.ra]) ELSE <<>>
      y == IF e.rb > 0 THEN (e.fb :> R[e.rb]) ELSE <<>>
  IN ("op" :> e.sub) @@ x @@ y @@ e

RegsAfter(s, e) == IF e.rc > 0 THEN [s.R[s.w] EXCEPT ![e.rc] = e[e.fo]] ELSE s.R[s.w]

\* the abstraction of the generating model (Session.tla) is sound: degree
\* bounds and invertibility of the constant term hold of the real register
Abstracts(m, A, dg, iv) == PMDeg(A) <= dg /\ (iv => MDet(m, PMCoef(m, A, 0)) # Zero(m))

SessionStart(m, e) == /\ e.P[e.w] = m
                      /\ Len(e.R) = Len(e.P)
                      /\ \A k \in 1..Len(e.P) : \A i \in 1..Len(e.R[k]) : IsPMat(e.P[k], e.R[k][i], e.n, e.n)
SessionSet(m, s, e) == Abstracts(m, e.c, e.dg, e.iv)
SessionSwitch(s, e) == e.R = s.R[e.w]
=============================================================================
