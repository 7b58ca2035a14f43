------------------------------- MODULE Tracer -------------------------------
(***************************************************************************)
(* The parallel tracer: how the main tracer and its helpers share the work *)
(* of one collection's phases, and how the main one finds that a phase is  *)
(* over.  A helper holds its own lock except while it waits; the main      *)
(* tracer holds every helper's lock between phases.  Wake-ups may be lost  *)
(* or spurious: no phase may depend on a helper's coming.                  *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS
  N,        \* tracers; 0 is the main one
  Obj, Succ, \* the graph: Obj = 1..k, Succ[o] a set of objects
  Phases,   \* sequence of [ro |-> roots only?, roots |-> set of objects]
  Spurious, \* may a helper wake without being woken?
  Cap       \* capacity of a local worklist; half of it is shared on overflow

VARIABLES pc, lk, epoch, seen, active, phase, roots, local, shared, marked, traced, i, woken
vars == <<pc, lk, epoch, seen, active, phase, roots, local, shared, marked, traced, i, woken>>

W == 0..(N - 1)
H == 1..(N - 1)
RECURSIVE ReachF(_, _)
ReachF(f, s) == IF f = {} THEN s ELSE LET s2 == s \cup f IN ReachF(UNION {Succ[o] : o \in f} \ s2, s2)
Given(p) == UNION {Phases[q].roots : q \in 1..p}

Init ==
  /\ pc = [w \in W |-> IF w = 0 THEN "begin" ELSE "start"]
  /\ lk = [w \in H |-> 0]  \* the main tracer takes all locks when it spawns the helpers
  /\ epoch = 0 /\ seen = [w \in H |-> 0] /\ active = 0 /\ phase = 1
  /\ roots = {} /\ local = [w \in W |-> {}] /\ shared = [w \in W |-> {}]
  /\ marked = {} /\ traced = [o \in Obj |-> 0] /\ i = 1 /\ woken = {}
Free == N
Go(w, l) == pc' = [pc EXCEPT ![w] = l]
RO == Phases[phase].ro

\* gc_tracer_add_root ..., gc_tracer_trace: unlock all, wake all.
Begin == pc[0] = "begin" /\ phase <= Len(Phases) /\ roots' = Phases[phase].roots /\ i' = 1 /\ Go(0, "unlock")
  /\ UNCHANGED <<lk, epoch, seen, active, phase, local, shared, marked, traced, woken>>
Unlock ==
  /\ pc[0] = "unlock"
  /\ IF i < N THEN lk' = [lk EXCEPT ![i] = Free] /\ i' = i + 1 /\ UNCHANGED pc
     ELSE Go(0, "wake") /\ UNCHANGED <<lk, i>>
  /\ UNCHANGED <<epoch, seen, active, phase, roots, local, shared, marked, traced, woken>>
\* Deciding not to wake anybody is always allowed.
Waken(w, next) == \/ epoch' = epoch + 1 /\ woken' = woken \cup {h \in H : pc[h] = "wait"} /\ Go(w, next)
                  \/ Go(w, next) /\ UNCHANGED <<epoch, woken>>
Wake0 == pc[0] = "wake" /\ Waken(0, "enter")
  /\ UNCHANGED <<lk, seen, active, phase, roots, local, shared, marked, traced, i>>

\* trace_worker_thread
HStart(w) == pc[w] = "start" /\ lk[w] = Free /\ lk' = [lk EXCEPT ![w] = w] /\ Go(w, "test")
  /\ UNCHANGED <<epoch, seen, active, phase, roots, local, shared, marked, traced, i, woken>>
HTest(w) ==
  /\ pc[w] = "test"
  /\ IF seen[w] # epoch THEN seen' = [seen EXCEPT ![w] = epoch] /\ Go(w, "enter")
     ELSE Go(w, "park") /\ UNCHANGED seen
  /\ UNCHANGED <<lk, epoch, active, phase, roots, local, shared, marked, traced, i, woken>>
HPark(w) == pc[w] = "park" /\ lk' = [lk EXCEPT ![w] = Free] /\ woken' = woken \ {w} /\ Go(w, "wait")
  /\ UNCHANGED <<epoch, seen, active, phase, roots, local, shared, marked, traced, i>>
\* Woken, or woken spuriously.
HWake(w) == pc[w] = "wait" /\ (Spurious \/ w \in woken) /\ lk[w] = Free /\ lk' = [lk EXCEPT ![w] = w] /\ Go(w, "test")
  /\ UNCHANGED <<epoch, seen, active, phase, roots, local, shared, marked, traced, i, woken>>

\* trace_with_data
Enter(w) == pc[w] = "enter" /\ active' = active + 1 /\ Go(w, "roots")
  /\ UNCHANGED <<lk, epoch, seen, phase, roots, local, shared, marked, traced, i, woken>>
\* Tracing something marks what it refers to and enqueues it; when the local
\* list is full, part of it is shared first.
Enqueue(w, new, next) ==
  LET all == local[w] \cup new
  IN IF Cardinality(all) <= Cap
     THEN /\ local' = [local EXCEPT ![w] = all] /\ UNCHANGED <<shared, epoch, woken>> /\ Go(w, next)
     ELSE \E out \in SUBSET all :
            /\ Cardinality(all \ out) = Cap \div 2
            /\ local' = [local EXCEPT ![w] = all \ out]
            /\ shared' = [shared EXCEPT ![w] = @ \cup out]
            /\ IF active < N THEN Waken(w, next) ELSE UNCHANGED <<epoch, woken>> /\ Go(w, next)
Roots(w) ==
  /\ pc[w] = "roots"
  /\ IF roots = {} THEN Go(w, "objs") /\ UNCHANGED <<roots, marked, local, shared, epoch, woken>>
     ELSE \E r \in roots :
            /\ roots' = roots \ {r}
            /\ marked' = marked \cup {r}
            /\ Enqueue(w, {r} \ marked, "roots")
  /\ UNCHANGED <<lk, seen, active, phase, traced, i>>
\* Roots only: helpers hand over what they found; the main one waits for them.
RootsOnly(w) ==
  /\ pc[w] = "objs" /\ RO
  /\ IF w = 0 THEN i' = 1 /\ Go(w, "lockall") /\ UNCHANGED <<local, shared>>
     ELSE /\ shared' = [shared EXCEPT ![w] = @ \cup local[w]]
          /\ local' = [local EXCEPT ![w] = {}]
          /\ Go(w, "leave") /\ UNCHANGED i
  /\ UNCHANGED <<lk, epoch, seen, active, phase, roots, marked, traced, woken>>
LockAll ==
  /\ pc[0] = "lockall"
  /\ IF i < N THEN lk[i] = Free /\ lk' = [lk EXCEPT ![i] = 0] /\ i' = i + 1 /\ UNCHANGED pc
     ELSE Go(0, "leave") /\ UNCHANGED <<lk, i>>
  /\ UNCHANGED <<epoch, seen, active, phase, roots, local, shared, marked, traced, woken>>
Trace(w, o, next) ==
  /\ traced' = [traced EXCEPT ![o] = @ + 1]
  /\ marked' = marked \cup Succ[o]
  /\ LET new == Succ[o] \ marked
         all == (local[w] \ {o}) \cup new
     IN IF Cardinality(all) <= Cap
        THEN local' = [local EXCEPT ![w] = all] /\ UNCHANGED <<epoch, woken>> /\ Go(w, next)
             /\ shared' = [v \in W |-> shared[v] \ {o}]
        ELSE \E out \in SUBSET all :
               /\ Cardinality(all \ out) = Cap \div 2
               /\ local' = [local EXCEPT ![w] = all \ out]
               /\ shared' = [v \in W |-> IF v = w THEN (shared[v] \ {o}) \cup out ELSE shared[v] \ {o}]
               /\ IF active < N THEN Waken(w, next) ELSE UNCHANGED <<epoch, woken>> /\ Go(w, next)
Objs(w) ==
  /\ pc[w] = "objs" /\ ~RO
  /\ IF local[w] # {}
     THEN (\E o \in local[w] : Trace(w, o, "objs")) /\ UNCHANGED i
     ELSE \/ \E v \in W : \E o \in shared[v] : Trace(w, o, "objs") /\ UNCHANGED i
          \* An attempt to steal may fail even if there is work, having looked
          \* elsewhere before it came: helpers give up, the main one tests for the end.
          \/ (IF w = 0 THEN Go(w, "term") ELSE Go(w, "leave"))
             /\ UNCHANGED <<local, shared, marked, traced, i, epoch, woken>>
  /\ UNCHANGED <<lk, seen, active, phase, roots>>
\* trace_worker_should_continue
Term ==
  /\ pc[0] = "term"
  /\ IF active # 1 THEN Go(0, "objs") /\ UNCHANGED i ELSE i' = 1 /\ Go(0, "trylock")
  /\ UNCHANGED <<lk, epoch, seen, active, phase, roots, local, shared, marked, traced, woken>>
TryLock ==
  /\ pc[0] = "trylock"
  /\ IF i = N THEN Go(0, "cansteal") /\ UNCHANGED <<lk, i>>
     ELSE IF lk[i] = Free THEN lk' = [lk EXCEPT ![i] = 0] /\ i' = i + 1 /\ UNCHANGED pc
     ELSE Go(0, "giveup") /\ UNCHANGED <<lk, i>>
  /\ UNCHANGED <<epoch, seen, active, phase, roots, local, shared, marked, traced, woken>>
CanSteal ==
  /\ pc[0] = "cansteal"
  /\ Go(0, IF \E v \in W : shared[v] # {} THEN "giveup" ELSE "leave")
  /\ UNCHANGED <<lk, epoch, seen, active, phase, roots, local, shared, marked, traced, i, woken>>
GiveUp ==
  /\ pc[0] = "giveup"
  /\ IF i > 1 THEN lk' = [lk EXCEPT ![i - 1] = Free] /\ i' = i - 1 /\ UNCHANGED pc
     ELSE Go(0, "objs") /\ UNCHANGED <<lk, i>>
  /\ UNCHANGED <<epoch, seen, active, phase, roots, local, shared, marked, traced, woken>>
Leave(w) ==
  /\ pc[w] = "leave" /\ active' = active - 1
  /\ IF w = 0 THEN phase' = phase + 1 /\ Go(0, "begin") ELSE Go(w, "park") /\ UNCHANGED phase
  /\ UNCHANGED <<lk, epoch, seen, roots, local, shared, marked, traced, i, woken>>

Main == Begin \/ Unlock \/ Wake0 \/ Enter(0) \/ Roots(0) \/ RootsOnly(0) \/ LockAll \/ Objs(0)
        \/ Term \/ TryLock \/ CanSteal \/ GiveUp \/ Leave(0)
Helper(w) == HStart(w) \/ HTest(w) \/ HPark(w) \/ Enter(w) \/ Roots(w) \/ RootsOnly(w) \/ Objs(w) \/ Leave(w)
Next == Main \/ \E w \in H : Helper(w) \/ HWake(w)
Bound == epoch <= 4
\* Looking for work forever while there is some is not what happens.
Spec == Init /\ [][Next]_vars /\ WF_vars(Main) /\ SF_vars(Objs(0) /\ traced' # traced) /\ \A w \in H : WF_vars(Helper(w))
---------------------------------------------------------------------------
Between == pc[0] = "begin"
\* When a phase ends, its roots are marked and no helper is at work ...
PhaseOver == Between /\ phase > 1 => /\ active = 0 /\ Given(phase - 1) \subseteq marked
                                     /\ \A h \in H : lk[h] = 0 /\ local[h] = {}
\* ... and if it was a full phase, everything reachable from them is, and has been traced.
Complete == Between /\ phase > 1 /\ ~Phases[phase - 1].ro =>
  LET R == ReachF(Given(phase - 1), {})
  IN /\ marked = R /\ \A o \in R : traced[o] = 1
     /\ \A w \in W : local[w] = {} /\ shared[w] = {}
Once == \A o \in Obj : traced[o] <= 1
\* Nothing that is marked is lost.
Kept == \A o \in marked : traced[o] = 1 \/ \E w \in W : o \in local[w] \cup shared[w]
NoMore == marked \subseteq ReachF(Given(IF phase > Len(Phases) THEN Len(Phases) ELSE phase), {})
Ends == <>(phase = Len(Phases) + 1)
=============================================================================
