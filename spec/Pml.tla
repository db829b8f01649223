-------------------------------- MODULE Pml --------------------------------
(***************************************************************************)
(* The PML library as a state machine.                                     *)
(*                                                                         *)
(* State: the current modulus `mod` (<<>> before the first one is set) and *)
(* the live precomputed objects `obj` (identifier |-> abstract value).     *)
(* Transitions: SetModulus, and Call(e) for every public operation: a call *)
(* leaves the modulus and its input arguments alone and its outputs stand  *)
(* in the relation given by the operation's postcondition.                 *)
(***************************************************************************)
EXTENDS PmlMul, PmlUtil, PmlForms, PmlBases, PmlSeries, PmlCRT, PmlStruct, PmlStructX, PmlBivar, PmlSeq, PmlScalar, PmlText, PmlSession

VARIABLES mod, obj

NoObj == [x \in {} |-> 0]
CreateOps == {"lm.new", "mp.new", "crt.new", "st.new", "sx.new"}

Post1(m, o, e) ==
  CASE e.op \in MulOps -> MulPost(m, o, e)
    [] e.op \in UtilOps -> UtilPost(m, e)
    [] e.op \in FormOps -> FormPost(m, e)
    [] e.op \in BasisOps -> BasisPost(m, e)
    [] e.op \in SeriesOps -> SeriesPost(m, e)
    [] e.op \in MpOps -> MpPost(m, o, e)
    [] e.op \in CrtOps -> CrtPost(m, o, e)
    [] e.op \in StructOps -> StructPost(m, o, e)
    [] e.op \in StructXOps -> StructXPost(m, o, e)
    [] e.op \in BivarOps -> BivarPost(m, e)
    [] e.op \in SeqOps -> SeqPost(m, e)
    [] e.op \in ScalarOps -> ScalarPost(m, e)
    [] e.op \in TextOps -> TextPost(m, e)
    [] OTHER -> FALSE

NextObj1(o, e) ==
  CASE e.op \in MulOps -> MulObj(o, e)
    [] e.op \in MpOps -> MpObj(o, e)
    [] e.op \in CrtOps -> CrtObj(o, e)
    [] e.op \in StructOps -> StructObj(o, e)
    [] e.op \in StructXOps -> StructXObj(o, e)
    [] OTHER -> o

\* sessions: an ordinary call on registers, judged by the same postconditions
Post(m, o, e) ==
  CASE e.op = "ss.start" -> SessionStart(m, e)
    [] e.op = "ss.set" -> SessionSet(m, o, e)
    [] e.op = "ss.switch" -> SessionSwitch(o, e)
    [] e.op = "ss.op" -> /\ Post1(m, o.O[o.w], SubCall(o, e))
                         /\ e.rc > 0 => Abstracts(m, e[e.fo], e.dg, e.iv)
    [] OTHER -> Post1(m, o, e)

NextObj(o, e) ==
  CASE e.op = "ss.start" -> [w |-> e.w, P |-> e.P, R |-> e.R, O |-> [k \in 1..Len(e.P) |-> NoObj]]
    [] e.op = "ss.set" -> [o EXCEPT !.R[o.w][e.rc] = e.c]
    [] e.op = "ss.switch" -> [o EXCEPT !.w = e.w]
    [] e.op = "ss.op" -> [o EXCEPT !.R[o.w] = RegsAfter(o, e), !.O[o.w] = NextObj1(o.O[o.w], SubCall(o, e))]
    [] OTHER -> NextObj1(o, e)

\* the modulus after the step: only SetModulus and a switch of world change it
NextMod(m, o, e) == IF e.op = "ss.switch" THEN o.P[e.w] ELSE m

Init == mod = <<>> /\ obj = NoObj

SetModulus(e) == /\ e.op = "modulus"
                 /\ mod' = e.p
                 /\ obj' = NoObj

\* e.st: how the call ended; e.pa: modulus after it; e.fr: inputs unchanged
Conforms(m, o, e) == /\ e.st = "ok"
                     /\ e.pa = NextMod(m, o, e)
                     /\ e.fr
                     /\ Post(m, o, e)

Effect(e) == mod' = NextMod(mod, obj, e) /\ obj' = NextObj(obj, e)

Call(e) == e.op # "modulus" /\ Conforms(mod, obj, e) /\ Effect(e)
=============================================================================
