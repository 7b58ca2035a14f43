----------------------------- MODULE StatsTrace -----------------------------
EXTENDS Stats, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l
vars == <<svars, l>>
Rec == Trace[l]
Is(o) == l <= Len(Trace) /\ Rec.o = o /\ l' = l + 1
Holds(q) == IF q THEN TRUE ELSE FALSE
Same == UNCHANGED svars

\* Each of the two recording listeners of the chain has been called once, with the
\* event's argument x and its own datum d: that of the mutator, or 0.
Called(d, x) == /\ Len(Rec.calls) = 2
                /\ {Rec.calls[1], Rec.calls[2]} = {<<1, d, x>>, <<2, d, x>>}
To(s) == st' = s /\ Holds(Rec.st = Fields(s)) /\ Holds(Rec.n = Len(s.p)) /\ UNCHANGED hist
Quiet == {"waiting_for_stop", "mutators_stopped", "roots_traced", "heap_traced", "ephemerons_traced", "finalizers_traced"}
MutEvents == {"mutator_cause_gc", "mutator_stopping", "mutator_stopped", "mutator_restarted"}
Event ==
  LET e == Rec.e x == Rec.x IN
  \/ e = "init" /\ Holds(Called(0, x)) /\ To(St0(x, Rec.T, Rec.C)) /\ UNCHANGED muts
  \/ e = "requesting_stop" /\ Holds(Called(0, 0)) /\ To(Stop(st, Rec.T, Rec.C)) /\ UNCHANGED muts
  \/ e = "prepare_gc" /\ Holds(Called(0, x)) /\ To(Prepare(st, Rec.minor = 1)) /\ UNCHANGED muts
  \/ e = "restarting_mutators" /\ Holds(Called(0, 0)) /\ To(Restart(st, Rec.T, Rec.C)) /\ UNCHANGED muts
  \/ e = "heap_resized" /\ Holds(Called(0, x)) /\ To(Resized(st, x)) /\ UNCHANGED muts
  \/ e = "live_data_size" /\ Holds(Called(0, x)) /\ To(Live(st, x)) /\ UNCHANGED muts
  \/ e \in Quiet /\ Holds(Called(0, 0)) /\ To(st) /\ UNCHANGED muts
  \* What the listeners return for a mutator is what they get back for it.
  \/ e = "mutator_added" /\ Holds(Called(0, 0)) /\ To(st) /\ Rec.m \notin muts /\ muts' = muts \cup {Rec.m}
  \/ e \in MutEvents /\ Rec.m \in muts /\ Holds(Called(Rec.m, 0)) /\ To(st) /\ UNCHANGED muts
  \/ e = "mutator_removed" /\ Rec.m \in muts /\ Holds(Called(Rec.m, 0)) /\ To(st) /\ muts' = muts \ {Rec.m}
  \/ e = "finish" /\ To(Stop(st, Rec.T, Rec.C)) /\ UNCHANGED muts

\* What is printed: counts, times in microseconds, pauses, sizes in kB (rounded).
Near(a, n) == IF Rec.u = 1 THEN a * 1000 - n <= 1000 /\ n - a * 1000 <= 1000 ELSE a - n \in {-1, 0, 1}
Printed(q) ==
  /\ q[1] = st.maj /\ q[2] = st.min
  /\ q[3] = st.mT + st.cT /\ q[4] = st.cT /\ q[5] = st.mC + st.cC /\ q[6] = st.cC
  /\ q[7] \in Percentiles(st.p, 500, 25, 4) /\ q[8] \in Percentiles(st.p, 950, 25, 4) /\ q[9] = Max(st.p, 25, 4)
  /\ Near(q[10], st.hs) /\ Near(q[11], st.mhs) /\ Near(q[12], st.mlive)

Values == hist[Rec.h]
Bb == Bits[Rec.h]
Pp == Prec[Rec.h]
Next ==
  \/ Is("reset") /\ st' = St0(0, 0, 0) /\ hist' = <<<< >>, << >>, << >>>> /\ muts' = {}
  \/ Is("ev") /\ Event
  \/ Is("print") /\ Same /\ Holds((\E i \in DOMAIN st.p : Over(st.p[i], 25, 4)) \/ Printed(Rec.q))
  \/ Is("rec") /\ hist' = [hist EXCEPT ![Rec.h] = Append(@, Rec.v)] /\ UNCHANGED <<st, muts>>
  \/ Is("count") /\ Holds(Rec.r = Len(Values)) /\ Same
  \/ Is("min") /\ Holds(Rec.r = Min(Values, Bb, Pp)) /\ Same
  \/ Is("max") /\ Holds(Rec.r = Max(Values, Bb, Pp)) /\ Same
  \/ Is("pct") /\ Holds(Rec.r \in Percentiles(Values, Rec.k, Bb, Pp)) /\ Same
  \/ Is("ref") /\ Holds(Rec.r = InBucket(Values, Rec.i, Bb, Pp) /\ Rec.lo = BucketLow(Rec.i, Pp) /\ Rec.size = Bb * 2^Pp + 1) /\ Same
  \/ Is("end") /\ Same

Spec == st = St0(0, 0, 0) /\ hist = <<<< >>, << >>, << >>>> /\ muts = {} /\ l = 1 /\ [][Next]_vars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
