------------------------------- MODULE Session -------------------------------
(* Generates user sessions for PmlSession: which calls a program may make.    *)
(* The state abstracts every register by a degree bound (in units) and by     *)
(* whether its constant term is known to be invertible, every world by the    *)
(* kind of its field, and its multiplier / evaluation objects by their sizes. *)
(* A step is enabled only where the library's documented preconditions hold.  *)
(*                                                                            *)
(* Mode "pairs":  exhaustive: every call, and every ordered pair of calls     *)
(*                f, g as  f | switch | g | switch back | f  again.           *)
(* Mode "random": long pseudo-random histories (a linear congruential         *)
(*                generator in the state, so runs are reproducible).          *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Mode, Depth, NSess, Seed

NReg == 3
NW == 3
Cap == 16
Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b

\* kinds of fields and what they support
Kinds == <<"tiny", "small", "mid", "mid", "big", "big", "fft", "fft", "ufft">>
Ge(k, l) == LET rank == [tiny |-> 0, small |-> 1, mid |-> 2, big |-> 2, fft |-> 2, ufft |-> 2] IN rank[k] >= l
IsFFT(k) == k \in {"fft", "ufft"}

VARIABLES id, rng, u, kind, w, dg, iv, lm, pt, n, out
vars == <<id, rng, u, kind, w, dg, iv, lm, pt, n, out>>

------------------------------------------------------------------------------
\* calls: name, field needed (0 any, 1 small, 2 mid, 3 FFT)
MulAlgs == << <<"multiply", 0>>, <<"multiply", 0>>, <<"naive", 0>>, <<"waksman", 0>>, <<"tr", 0>>, <<"tr_naive", 0>>, <<"tr_kar", 0>>, <<"tr_mont3", 0>>, <<"tr_kar4", 0>>,
              <<"dense", 1>>, <<"dense2", 1>>, <<"primes3", 0>>, <<"geom", 1>>,
              <<"fft", 3>>, <<"fft_mm1", 3>>, <<"fft_mm2", 3>>, <<"fft_mm3", 3>>, <<"fft_ll", 3>>, <<"fft_direct", 3>> >>
MpAlgs == << <<"general", 0>>, <<"naive", 0>>, <<"primes3", 0>>, <<"dense", 2>>, <<"fft", 3>>, <<"fft_mm1", 3>>, <<"fft_mm2", 3>>, <<"fft_mm3", 3>>, <<"fft_ll", 3>>, <<"fft_direct", 3>> >>
InvAlgs == << <<"plain", 0>>, <<"auto", 0>>, <<"middle", 0>>, <<"fft", 3>>, <<"geometric", 2>> >>
SolAlgs == << <<"auto", 0>>, <<"low", 0>>, <<"high", 0>> >>
AppAlgs == << <<"mbasis", 0>>, <<"pmbasis", 0>>, <<"popov_pmbasis", 0>>, <<"appbas_iterative", 0>>, <<"mbasis_plain", 0>>, <<"mbasis_rescomp", 0>>, <<"mbasis_resupdate", 0>> >>
DetAlgs == << <<"minors", 0>>, <<"minors_rec", 0>>, <<"general", 1>>, <<"geometric", 1>>, <<"FFT", 3>> >>
LmAlgs == << <<"get", 0>>, <<"fft_direct", 3>>, <<"fft_matmul", 3>>, <<"geometric", 1>>, <<"dense", 1>>, <<"primes3", 0>> >>
PtAlgs == << <<"general", 1>>, <<"geometric", 1>>, <<"fft", 3>> >>
Families == << <<"mul", MulAlgs>>, <<"multrunc", << <<"-", 0>> >> >>, <<"mp", MpAlgs>>, <<"invtrunc", InvAlgs>>, <<"solser", SolAlgs>>,
               <<"appbas", AppAlgs>>, <<"det", DetAlgs>>, <<"lnew", LmAlgs>>, <<"lmul", << <<"-", 0>> >> >>, <<"ptnew", PtAlgs>>, <<"pteval", << <<"-", 0>> >> >>,
               <<"add", << <<"-", 0>> >> >>, <<"sub", << <<"-", 0>> >> >>, <<"neg", << <<"-", 0>> >> >>, <<"trunc", << <<"-", 0>> >> >>,
               <<"shl", << <<"-", 0>> >> >>, <<"rev", << <<"-", 0>> >> >>, <<"transp", << <<"-", 0>> >> >>, <<"muls", << <<"-", 0>> >> >>, <<"mulp", << <<"-", 0>> >> >>,
               <<"kernel", << <<"-", 0>> >> >> >>

FieldOK(need, k) == IF need = 3 THEN IsFFT(k) ELSE Ge(k, need)

\* largest degree (in units) the Karatsuba-like transforms accept
TrMax(a) == CASE a = "tr_kar" -> 1 [] a = "tr_mont3" -> 2 [] a = "tr_kar4" -> 3 [] OTHER -> 1000
NonZero(a) == a \notin {"multiply", "naive", "waksman", "geom"}     \* stated for nonzero operands

\* st: [k (field kind), u, D (degree bounds), I (invertible), lm, pt]
Enabled_(st, f, a, need, ra, rb, rc, k) ==
  LET D == st.D  I == st.I
  IN /\ FieldOK(need, st.k)
     /\ CASE f = "mul" -> /\ D[ra] + D[rb] <= Cap
                          /\ st.u * D[ra] <= TrMax(a) /\ st.u * D[rb] <= TrMax(a)
                          /\ NonZero(a) => I[ra] /\ I[rb]
          [] f = "multrunc" -> k >= 1
          [] f = "mp" -> D[rb] <= D[ra] + k
          [] f = "invtrunc" -> I[ra] /\ k >= 1
          [] f = "solser" -> I[ra] /\ k >= 1
          [] f = "appbas" -> k >= 1 /\ rc # ra
          [] f = "det" -> TRUE
          [] f = "lnew" -> I[ra]
          [] f = "lmul" -> st.lm # <<>> /\ D[rb] <= st.lm[2] /\ I[rb] /\ st.lm[1] + D[rb] <= Cap
          [] f = "ptnew" -> k >= 1
          [] f = "pteval" -> st.pt # 0 /\ D[ra] < st.pt
          [] f = "shl" -> D[ra] + (k - 3) <= Cap
          [] f = "mulp" -> D[ra] + k <= Cap
          [] OTHER -> TRUE
NewDeg(st, f, ra, rb, k) ==
  LET D == st.D
  IN CASE f = "mul" -> D[ra] + D[rb]
       [] f = "multrunc" -> Min(D[ra] + D[rb], k)
       [] f \in {"mp", "rev", "appbas", "invtrunc", "solser"} -> k
       [] f = "lmul" -> st.lm[1] + D[rb]
       [] f \in {"add", "sub"} -> Max(D[ra], D[rb])
       [] f \in {"neg", "transp", "muls"} -> D[ra]
       [] f = "trunc" -> Min(D[ra], k)
       [] f = "shl" -> Max(0, D[ra] + (k - 3))
       [] f = "mulp" -> D[ra] + k
       [] f = "set" -> k
       [] OTHER -> 0
NewInv(st, f, ra, rb, k) ==
  LET I == st.I
  IN CASE f = "mul" -> I[ra] /\ I[rb]
       [] f = "multrunc" -> I[ra] /\ I[rb]
       [] f = "invtrunc" -> TRUE
       [] f = "solser" -> I[rb]
       [] f = "lmul" -> I[rb]
       [] f \in {"neg", "transp", "muls"} -> I[ra]
       [] f = "trunc" -> k >= 1 /\ I[ra]
       [] f = "shl" -> k = 3 /\ I[ra]
       [] f = "set" -> TRUE
       [] OTHER -> FALSE
Dest(f) == f \notin {"det", "lnew", "ptnew", "pteval", "kernel"}

St == [k |-> kind[w], u |-> u, D |-> dg[w], I |-> iv[w], lm |-> lm[w], pt |-> pt[w]]
Apply(f, ra, rb, rc, k) ==
  /\ dg' = IF Dest(f) THEN [dg EXCEPT ![w][rc] = NewDeg(St, f, ra, rb, k)] ELSE dg
  /\ iv' = IF Dest(f) THEN [iv EXCEPT ![w][rc] = NewInv(St, f, ra, rb, k)] ELSE iv
  /\ lm' = IF f = "lnew" THEN [lm EXCEPT ![w] = <<dg[w][ra], k>>] ELSE lm
  /\ pt' = IF f = "ptnew" THEN [pt EXCEPT ![w] = k] ELSE pt

S_(x) == " " \o ToString(x)
B_(b) == IF b THEN " 1" ELSE " 0"
\* one step: name algorithm ra rb rc k bound invertible
Txt(f, a, ra, rb, rc, k, d, i) == " " \o f \o " " \o a \o S_(ra) \o S_(rb) \o S_(rc) \o S_(k) \o S_(d) \o B_(i)
Step(f, a, ra, rb, rc, k) == Txt(f, a, ra, rb, rc, k, NewDeg(St, f, ra, rb, k), NewInv(St, f, ra, rb, k))

Init0(i, uu, ks) ==
  /\ id = i /\ u = uu /\ kind = ks /\ w = 1 /\ n = 0
  /\ dg = [x \in 1..NW |-> <<2, 3, 1>>]
  /\ iv = [x \in 1..NW |-> <<TRUE, TRUE, TRUE>>]
  /\ lm = [x \in 1..NW |-> <<>>] /\ pt = [x \in 1..NW |-> 0]
  /\ out = ""

------------------------------------------------------------------------------
\* exhaustive mode: all pairs of (family, algorithm), fixed registers; in each
\* pair the same sizes recur in both worlds, so that anything kept by size only
\* is reused under the wrong modulus
Calls == UNION {{<<Families[i][1], Families[i][2][j]>> : j \in 1..Len(Families[i][2])} : i \in 1..Len(Families)}
KindPairs == {<<"fft", "ufft">>, <<"big", "mid">>, <<"fft", "mid">>, <<"fft", "fft">>, <<"small", "small">>}
\* operands chosen so that every call is enabled initially (registers <<2,3,1>>)
Par(f, a) == CASE f = "mul" /\ a \in {"tr_kar", "tr_mont3", "tr_kar4"} -> <<3, 3, 1, 0>>
               [] f = "appbas" -> <<1, 2, 3, 4>>
               [] f = "lnew" -> <<1, 2, 3, 4>>
               [] f = "mp" -> <<1, 2, 3, 3>>
               [] f = "ptnew" -> <<1, 2, 3, 5>>
               [] OTHER -> <<1, 2, 3, 4>>
StepOf(c, ww, D, I) == LET q == Par(c[1], c[2][1]) IN
  LET st == [k |-> kind[ww], u |-> u, D |-> D, I |-> I, lm |-> <<2, 4>>, pt |-> 5]
  IN Txt(c[1], c[2][1], q[1], q[2], q[3], q[4], NewDeg(st, c[1], q[1], q[2], q[4]), NewInv(st, c[1], q[1], q[2], q[4]))
Can(c, ww) == LET q == Par(c[1], c[2][1])
              IN Enabled_([k |-> kind[ww], u |-> u, D |-> <<2, 3, 1>>, I |-> <<TRUE, TRUE, TRUE>>, lm |-> <<2, 4>>, pt |-> 5],
                          c[1], c[2][1], c[2][2], q[1], q[2], q[3], q[4])
Sw(x) == Txt("switch", "-", x, 0, 0, 0, 0, FALSE)
Pre(c) == IF c[1] = "lmul" THEN Txt("lnew", "get", 1, 2, 3, 4, 0, FALSE) ELSE IF c[1] = "pteval" THEN Txt("ptnew", "geometric", 1, 2, 3, 5, 0, FALSE) ELSE ""
D0 == <<2, 3, 1>>
I0 == <<TRUE, TRUE, TRUE>>
\* restores the registers of the current world
Fresh == Txt("set", "-", 0, 0, 1, 2, 2, TRUE) \o Txt("set", "-", 0, 0, 2, 3, 3, TRUE) \o Txt("set", "-", 0, 0, 3, 1, 1, TRUE)
PairText(c, d) ==
  Pre(c) \o StepOf(c, 1, D0, I0) \o Sw(2) \o Pre(c) \o StepOf(c, 2, D0, I0)
    \o Fresh \o Pre(d) \o StepOf(d, 2, D0, I0) \o Sw(1) \o Fresh \o StepOf(c, 1, D0, I0) \o Fresh \o (IF Can(d, 1) THEN Pre(d) \o StepOf(d, 1, D0, I0) ELSE "")
PairInit == \E ks \in KindPairs : Init0(1, IF ks[1] \in {"big", "small"} THEN 6 ELSE 1, <<ks[1], ks[2], "tiny">>) /\ rng = 0
PairNext == /\ n = 0
            /\ \E c \in Calls : \E d \in Calls :
                 /\ Can(c, 1) /\ Can(c, 2) /\ Can(d, 2)
                 /\ out' = PairText(c, d)
            /\ n' = 1
            /\ UNCHANGED <<id, rng, u, kind, w, dg, iv, lm, pt>>

\* exhaustive mode for aliasing: every call with every choice of registers
AliasInit == \E ks \in {"fft", "mid", "tiny"} : Init0(1, 1, <<ks, "big", "mid">>) /\ rng = 0
AliasNext == /\ n = 0
             /\ \E c \in Calls : \E ra, rb, rc \in 1..NReg : \E k \in {1, 4} :
                  /\ c[1] \notin {"lmul", "pteval", "det", "lnew", "ptnew", "kernel"}
                  /\ Enabled_(St, c[1], c[2][1], c[2][2], ra, rb, rc, k)
                  /\ (c[1] \notin {"mul", "multrunc", "mp", "solser", "add", "sub"} => rb = 1)
                  /\ out' = Step(c[1], c[2][1], ra, rb, rc, k)
             /\ n' = 1
             /\ UNCHANGED <<id, rng, u, kind, w, dg, iv, lm, pt>>

------------------------------------------------------------------------------
\* random mode
Lcg(x) == (x * 17364 + 11) % 65521
R1 == Lcg(rng)  R2 == Lcg(R1)  R3 == Lcg(R2)  R4 == Lcg(R3)  R5 == Lcg(R4)  R6 == Lcg(R5)  R7 == Lcg(R6)
Of(r, s) == s[1 + ((r \div 7) % Len(s))]
Num(r, k) == (r \div 7) % k
RandInit == \E i \in 1..NSess :
  LET a == Lcg(Lcg(Lcg(Seed * 977 + i * 131)))  b == Lcg(a)  c == Lcg(b)  d == Lcg(c)
  IN /\ rng = Lcg(d)
     /\ Init0(i, IF Num(a, 4) = 0 THEN 6 ELSE 1, <<Of(b, Kinds), Of(c, Kinds), Of(d, Kinds)>>)
\* the drawn call if enabled, otherwise a fresh register
RandNext ==
  /\ n < Depth
  /\ n' = n + 1
  /\ rng' = Lcg(R7)
  /\ UNCHANGED <<id, u, kind>>
  /\ IF Num(R1, 6) = 0
     THEN LET x == 1 + Num(R2, NW)
          IN w' = x /\ out' = out \o Sw(x) /\ UNCHANGED <<dg, iv, lm, pt>>
     ELSE LET F == Of(R2, Families)  A == Of(R3, F[2])
              ra == 1 + Num(R4, NReg)  rb == 1 + Num(R5, NReg)  rc == 1 + Num(R6, NReg)  k == Num(R7, 9)
          IN /\ w' = w
             /\ IF Enabled_(St, F[1], A[1], A[2], ra, rb, rc, k)
                THEN Apply(F[1], ra, rb, rc, k) /\ out' = out \o Step(F[1], A[1], ra, rb, rc, k)
                ELSE Apply("set", ra, rb, rc, k % 4) /\ out' = out \o Step("set", "-", 0, 0, rc, k % 4)

------------------------------------------------------------------------------
Init == CASE Mode = "pairs" -> PairInit [] Mode = "alias" -> AliasInit [] OTHER -> RandInit
Next == CASE Mode = "pairs" -> PairNext [] Mode = "alias" -> AliasNext [] OTHER -> RandNext
Spec == Init /\ [][Next]_vars

TypeOK == /\ w \in 1..NW
          /\ \A x \in 1..NW : \A r \in 1..NReg : dg[x][r] \in 0..Cap /\ iv[x][r] \in BOOLEAN
\* evaluated once per distinct state: prints the finished sessions
Finished == n = (IF Mode = "random" THEN Depth ELSE 1)
Export == Finished => PrintT("SESSION" \o S_(u) \o " " \o kind[1] \o " " \o kind[2] \o " " \o kind[3] \o out)
=============================================================================
