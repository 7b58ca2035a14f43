---------------------------- MODULE SpaceTrace -----------------------------
EXTENDS Space, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l
Rec == Trace[l]
Is(o) == l <= Len(Trace) /\ Rec.o = o /\ l' = l + 1
Next == \/ Is("reset") /\ Start(Rec.c, Rec.pol, Rec.hs, Rec.mult, Rec.gen, Rec.th)
        \/ Is("nb") /\ Begin(Rec.id, Rec.b)
        \/ Is("ne") /\ Complete(Rec.id)
        \/ Is("db") /\ DropBegin(Rec.id)
        \/ Is("de") /\ DropEnd(Rec.id)
        \/ Is("gb") /\ Garbage(Rec.b)
        \/ Is("ge") /\ GarbageEnd(Rec.b, Rec.kb)
        \/ Is("gc") /\ Collect(Rec.k, Rec.live)
        \/ Is("resize") /\ Resize(Rec.hs)
        \/ Is("cb") /\ CounterBegin
        \/ Is("ctr") /\ Counter(Rec.kb)
        \/ Is("oom") /\ OutOfSpace
        \/ Is("end") /\ Finish
Spec == SInit /\ l = 1 /\ [][Next]_<<svars, l>>
Track == TLCSet(1, IF l > TLCGet(1) THEN l ELSE TLCGet(1))
ASSUME TLCSet(1, 0)
TraceAccepted == TLCGet(1) = Len(Trace) + 1 \/ PrintT(<<"REJECTED_AT", TLCGet(1)>>) = FALSE
=============================================================================
