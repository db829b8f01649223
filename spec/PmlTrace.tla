------------------------------ MODULE PmlTrace ------------------------------
(* Validates a recorded execution against Pml: every event must be a step of *)
(* the specification.  An event that is not one is reported (REJECT line)    *)
(* and skipped, so that the rest of the trace is still checked.              *)
EXTENDS Pml, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l, rejected
tvars == <<mod, obj, l, rejected>>

TraceInit == Init /\ l = 1 /\ rejected = 0

\* a call on an object whose creation was rejected: nothing is known of it
Orphan(e) == rejected > 0 /\ e.op \notin SessionOps /\ "id" \in DOMAIN e /\ e.op \notin CreateOps /\ e.id \notin DOMAIN obj

TraceNext ==
  /\ l <= Len(Trace)
  /\ LET e == Trace[l]
     IN \/ e.op = "modulus" /\ SetModulus(e) /\ rejected' = rejected
        \/ /\ e.op # "modulus"               \* Call(e), or a rejection
           /\ IF Orphan(e)
              THEN UNCHANGED <<mod, obj, rejected>>
              ELSE IF Conforms(mod, obj, e)
              THEN Effect(e) /\ rejected' = rejected
              ELSE /\ PrintT(<<"REJECT", l>>)
                   /\ mod' = NextMod(mod, obj, e) /\ obj' = obj /\ rejected' = rejected + 1
  /\ l' = l + 1

TraceSpec == TraceInit /\ [][TraceNext]_tvars

\* every line was consumed
TraceConsumed == /\ PrintT(<<"CONSUMED", TLCGet("stats").diameter - 1, Len(Trace)>>)
                 /\ TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
