-------------------------- MODULE BackgroundTrace ---------------------------
EXTENDS Background, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l
Rec == Trace[l]
Is(o) == l <= Len(Trace) /\ Rec.o = o /\ l' = l + 1
Next == \/ Is("reset") /\ state' = "none" /\ tasks' = <<>> /\ pos' = 0 /\ pend' = Ops0
        \/ Is("make") /\ Make
        \/ Is("start") /\ Start
        \/ Is("addb") /\ Begin(Rec.t, "add", Rec.tag, Rec.p)
        \/ Is("remb") /\ Begin(Rec.t, "rem", Rec.tag, 0)
        \/ Is("destb") /\ Begin(Rec.t, "dest", 0, 0)
        \/ Is("e") /\ End(Rec.t)
        \/ Is("run") /\ RunTask(Rec.tag)
        \/ Is("end") /\ pend = Ops0 /\ pos = 0 /\ UNCHANGED bvars
        \* An operation takes effect at some moment before its end.
        \/ l <= Len(Trace) /\ Rec.o \in {"e", "run"} /\ l' = l /\ \E t \in DOMAIN pend : Effect(t)
Spec == BInit /\ l = 1 /\ [][Next]_<<bvars, l>>
Track == TLCSet(1, IF l > TLCGet(1) THEN l ELSE TLCGet(1))
ASSUME TLCSet(1, 0)
TraceAccepted == TLCGet(1) = Len(Trace) + 1 \/ PrintT(<<"REJECTED_AT", TLCGet(1)>>) = FALSE
=============================================================================
