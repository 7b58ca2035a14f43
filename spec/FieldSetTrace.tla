--------------------------- MODULE FieldSetTrace ----------------------------
EXTENDS FieldSet, Sequences, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l
Rec == Trace[l]
Is(o) == l <= Len(Trace) /\ Rec.o = o /\ l' = l + 1
Next == \/ Is("reset") /\ rem' = {} /\ todo' = {} /\ phase' = "mutate"
        \/ Is("log") /\ Log(Rec.e)
        \/ Is("minor") /\ Minor
        \/ Is("visit") /\ Visit(Rec.e, Rec.k)
        \/ Is("endminor") /\ EndMinor
        \/ Is("major") /\ Major
        \/ Is("forget") /\ Forget(Rec.e)
        \/ Is("endmajor") /\ EndMajor(Rec.k)
        \/ Is("end") /\ phase = "mutate" /\ UNCHANGED fvars
Spec == FInit /\ l = 1 /\ [][Next]_<<fvars, l>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
