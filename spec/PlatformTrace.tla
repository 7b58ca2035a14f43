---------------------------- MODULE PlatformTrace ----------------------------
EXTENDS Platform, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, total    \* the address space in use
vars == <<mem, l, total>>
Rec == Trace[l]
Is(o) == l <= Len(Trace) /\ Rec.o = o /\ l' = l + 1
Holds(q) == IF q THEN TRUE ELSE FALSE
Total(d) == total' = Rec.vm /\ Holds(Rec.vm = total + d)
Same == UNCHANGED <<mem, total>>

Next ==
  \/ Is("reset") /\ mem' = << >> /\ total' = Rec.vm
  \* Address space that is not asked for is not taken.
  \/ Is("reserve") /\ Reserve(Rec.lo, Rec.n, Rec.a) /\ Total(Rec.n) /\ Holds(Rec.size = Rec.n)
  \/ Is("acquire") /\ Acquire(Rec.at, Rec.n) /\ Holds(Rec.lo = Rec.at) /\ Total(0)
  \/ Is("racquire") /\ ReserveAcquire(Rec.lo, Rec.n, Rec.a) /\ Total(Rec.n)
  \/ Is("write") /\ Write(Rec.lo, Rec.v) /\ UNCHANGED total
  \* Contents of a page; -1 if it cannot be accessed.
  \/ Is("read") /\ Holds(Rec.r = mem[Rec.lo]) /\ Same
  \/ Is("populate") /\ Populate(Rec.lo, Rec.n) /\ Holds(Rec.r = 1) /\ UNCHANGED total
  \/ Is("discard") /\ Discard(Rec.lo, Rec.n) /\ Holds(Rec.r = 1) /\ UNCHANGED total
  \/ Is("release") /\ Release(Rec.lo, Rec.n) /\ Total(-Rec.n)
  \/ Is("scan") /\ Holds(Rec.r = Scan(Rec.s, 0, Rec.limit, Rec.k, Rec.mask, Rec.t1, Rec.t2)) /\ Same
  \* Processors, page size, clock and stack: against what the system says.
  \/ Is("cpus") /\ Holds(Rec.r = Rec.want) /\ Same
  \/ Is("page") /\ Holds(Rec.r = Rec.want) /\ Same
  \/ Is("clock") /\ Holds(Rec.before <= Rec.r /\ Rec.r <= Rec.after) /\ Same
  \/ Is("stack") /\ Holds(Rec.r = Rec.want) /\ Same
  \/ Is("vm") /\ total' = Rec.vm /\ UNCHANGED mem
  \/ Is("end") /\ Same

Spec == mem = << >> /\ l = 1 /\ total = -1 /\ [][Next]_vars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
