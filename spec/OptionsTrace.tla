--------------------------- MODULE OptionsTrace ----------------------------
EXTENDS Options, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l
vars == <<opt, l>>
Rec == Trace[l]
Is(o) == l <= Len(Trace) /\ Rec.o = o /\ l' = l + 1
Holds(p) == IF p THEN TRUE ELSE FALSE
Values(r) == [o \in 0..5 |-> r.v[o + 1]]
\* The setting's result, and all options afterwards, are as specified.
Is1(n) == Holds(Rec.r = n.r) /\ opt' = n.O /\ Holds(n.O = Values(Rec))

Next ==
  \* Defaults: a fixed heap of 6 MB, no maximum, 1.75, 1, as many threads as processors up to 8.
  \/ Is("reset") /\ opt' = Values(Rec)
       /\ Holds(Values(Rec) = [o \in 0..5 |-> CASE o \in {0, 2} -> Zero [] o = 1 -> MulAdd(Nat8(6144), 1024, 0)
                                 [] o = 3 -> Nat8(1750) [] o = 4 -> Nat8(1000) [] OTHER -> Nat8(IF Rec.np < 8 THEN Rec.np ELSE 8)])
  \/ Is("name") /\ Holds(Rec.r = OptionOf(Rec.s)) /\ UNCHANGED opt
  \/ Is("parse") /\ Is1(Set(opt, Rec.i, Rec.s))
  \/ Is("many") /\ Is1(SetMany(opt, Rec.s))
  \* Setters of a type only set options of that type.
  \/ Is("set") /\ Is1(IF Kind(Rec.i) = Rec.k /\ Rec.neg = 0 THEN Setting(opt, Rec.i, Val(Rec.x)) ELSE [r |-> 0, O |-> opt])
  \/ Is("end") /\ UNCHANGED opt

Spec == opt = [o \in 0..5 |-> Zero] /\ l = 1 /\ [][Next]_vars
Ranges == l > 1 => OptionsOK
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
