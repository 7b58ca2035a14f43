--------------------------- MODULE WorklistTrace ----------------------------
EXTENDS Worklist, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l
vars == <<wvars, l>>
Rec == Trace[l]
Is(o) == l <= Len(Trace) /\ Rec.o = o /\ l' = l + 1
Next ==
  \/ Is("reset") /\ bag' = {} /\ pend' = [t \in {} |-> 0] /\ relaxed' = (Rec.relaxed = 1)
  \/ Is("b") /\ Begin(Rec.t, Rec.op, Rec.xs, Rec.r)
  \/ Is("e") /\ End(Rec.t)
  \* Everything pushed has been taken, and nothing is under way.
  \/ Is("end") /\ pend = [t \in {} |-> 0] /\ UNCHANGED wvars
  \* An operation takes effect: at the latest just before the end of some operation.
  \/ /\ l <= Len(Trace) /\ Rec.o = "e" /\ l' = l
     /\ \E t \in DOMAIN pend : Take(t)
Spec == WInit /\ l = 1 /\ [][Next]_vars
Track == TLCSet(1, IF l > TLCGet(1) THEN l ELSE TLCGet(1))
ASSUME TLCSet(1, 0)
TraceAccepted == TLCGet(1) = Len(Trace) + 1 \/ PrintT(<<"REJECTED_AT", TLCGet(1)>>) = FALSE
=============================================================================
