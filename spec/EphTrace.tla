------------------------------ MODULE EphTrace ------------------------------
(***************************************************************************)
(* How tracers that run concurrently decide the fate of ephemerons         *)
(* (gc-ephemeron.c): an ephemeron whose key is not yet known to be alive   *)
(* is published in a table of pending ones, from which whoever marks its   *)
(* key later resolves it.  First all of the heap is traced without looking *)
(* at the table (lazily); then the table is scanned, and from then on      *)
(* every object that is marked is looked up in it (eagerly).  What is      *)
(* still pending at the end is dead.                                       *)
(***************************************************************************)
EXTENDS Naturals, FiniteSets, TLC
CONSTANTS
  T, Obj, Eph,           \* tracers, plain objects, ephemerons
  Graphs,                \* set of [succ, key, val, roots]
  Recheck                \* TRUE: the key is looked at again after publishing
VARIABLES g, phase, pc, cur, todo, marked, grey, st, traced, pend, resolved, dead, vals, eager
vars == <<g, phase, pc, cur, todo, marked, grey, st, traced, pend, resolved, dead, vals, eager>>
Node == Obj \cup Eph
None == 0
Init ==
  /\ g \in Graphs
  /\ phase = "trace" /\ pc = [t \in T |-> "idle"] /\ cur = [t \in T |-> None] /\ todo = [t \in T |-> {}]
  /\ marked = g.roots /\ grey = g.roots
  /\ st = [e \in Eph |-> "traced"] /\ traced = {} /\ pend = {} /\ resolved = {} /\ dead = {} /\ vals = [e \in Eph |-> 0]
  /\ eager = FALSE
Go(t, l) == pc' = [pc EXCEPT ![t] = l]
\* trace_one
Take(t) ==
  /\ phase \in {"trace", "resolve"} /\ pc[t] = "idle"
  /\ \E x \in grey :
       /\ grey' = grey \ {x} /\ cur' = [cur EXCEPT ![t] = x]
       /\ IF x \in Obj THEN todo' = [todo EXCEPT ![t] = g.succ[x]] /\ Go(t, "edges") /\ UNCHANGED st
          ELSE /\ UNCHANGED todo
               /\ IF st[x] = "traced" THEN st' = [st EXCEPT ![x] = "claimed"] /\ Go(t, "claimed")
                  ELSE Go(t, "idle") /\ UNCHANGED st
  /\ UNCHANGED <<g, phase, marked, traced, pend, resolved, dead, vals, eager>>
\* Visit one edge: mark; if it was this tracer that marked it, look for pending
\* ephemerons of which it is the key (when eager), and enqueue.
Edge(t) ==
  /\ pc[t] = "edges"
  /\ IF todo[t] = {} THEN Go(t, "idle") /\ UNCHANGED <<todo, marked, cur>>
     ELSE \E x \in todo[t] :
       /\ IF x \in marked THEN UNCHANGED <<pc, marked, cur>>
          ELSE marked' = marked \cup {x} /\ cur' = [cur EXCEPT ![t] = x] /\ Go(t, "marked")
       /\ todo' = [todo EXCEPT ![t] = @ \ {x}]
  /\ UNCHANGED <<g, phase, grey, st, traced, pend, resolved, dead, vals, eager>>
Marked(t) ==
  /\ pc[t] = "marked" /\ Go(t, "lookup")
  /\ IF eager THEN LET r == {e \in pend : g.key[e] = cur[t] /\ st[e] = "pending"}
                   IN st' = [e \in Eph |-> IF e \in r THEN "resolved" ELSE st[e]] /\ resolved' = resolved \cup r
     ELSE UNCHANGED <<st, resolved>>
  /\ UNCHANGED <<g, phase, cur, todo, marked, grey, traced, pend, dead, vals, eager>>
Enqueue(t) == pc[t] = "lookup" /\ grey' = grey \cup {cur[t]} /\ Go(t, "edges")
  /\ UNCHANGED <<g, phase, cur, todo, marked, st, traced, pend, resolved, dead, vals, eager>>
\* gc_trace_ephemeron, having claimed it
Claimed(t) ==
  /\ pc[t] = "claimed"
  /\ LET e == cur[t] IN
     IF e \in traced THEN st' = [st EXCEPT ![e] = "traced"] /\ Go(t, "idle") /\ UNCHANGED <<traced, todo, vals>>
     ELSE /\ traced' = traced \cup {e}
          /\ IF g.key[e] \in marked
             THEN /\ vals' = [vals EXCEPT ![e] = @ + 1] /\ st' = [st EXCEPT ![e] = "traced"]
                  /\ todo' = [todo EXCEPT ![t] = {g.val[e]} \ {None}] /\ Go(t, "edges")
             ELSE Go(t, "publish") /\ UNCHANGED <<st, todo, vals>>
  /\ UNCHANGED <<g, phase, cur, marked, grey, pend, resolved, dead, eager>>
Publish(t) ==
  /\ pc[t] = "publish" /\ st' = [st EXCEPT ![cur[t]] = "pending"] /\ Go(t, "push")
  /\ UNCHANGED <<g, phase, cur, todo, marked, grey, traced, pend, resolved, dead, vals, eager>>
Push(t) ==
  /\ pc[t] = "push" /\ pend' = pend \cup {cur[t]} /\ Go(t, IF Recheck THEN "recheck" ELSE "idle")
  /\ UNCHANGED <<g, phase, cur, todo, marked, grey, st, traced, resolved, dead, vals, eager>>
ReCheck(t) ==
  /\ pc[t] = "recheck" /\ Go(t, "idle")
  /\ LET e == cur[t] IN
     IF g.key[e] \in marked /\ st[e] = "pending"
     THEN st' = [st EXCEPT ![e] = "resolved"] /\ resolved' = resolved \cup {e}
     ELSE UNCHANGED <<st, resolved>>
  /\ UNCHANGED <<g, phase, cur, todo, marked, grey, traced, pend, dead, vals, eager>>
\* The collector, between phases of tracing.
Quiet == grey = {} /\ \A t \in T : pc[t] = "idle"
Scan ==
  /\ phase = "trace" /\ Quiet
  /\ eager' = TRUE /\ phase' = "pop"
  /\ LET r == {e \in pend : g.key[e] \in marked /\ st[e] = "pending"}
     IN st' = [e \in Eph |-> IF e \in r THEN "resolved" ELSE st[e]] /\ resolved' = resolved \cup r
  /\ UNCHANGED <<g, pc, cur, todo, marked, grey, traced, pend, dead, vals>>
\* gc_trace_resolved_ephemerons is a root of the next phase: one tracer visits the values.
Pop ==
  /\ phase = "pop" /\ resolved # {}
  /\ phase' = "resolve" /\ resolved' = {}
  /\ \E t \in T : /\ todo' = [todo EXCEPT ![t] = {g.val[e] : e \in resolved} \ {None}]
                  /\ Go(t, "edges")
  /\ vals' = [e \in Eph |-> IF e \in resolved THEN vals[e] + 1 ELSE vals[e]]
  /\ st' = [e \in Eph |-> IF e \in resolved THEN "traced" ELSE st[e]]
  /\ UNCHANGED <<g, cur, marked, grey, traced, pend, dead, eager>>
Popped == phase = "resolve" /\ Quiet /\ phase' = "pop"
  /\ UNCHANGED <<g, pc, cur, todo, marked, grey, st, traced, pend, resolved, dead, vals, eager>>
Sweep ==
  /\ phase = "pop" /\ resolved = {} /\ phase' = "done"
  /\ dead' = {e \in pend : st[e] = "pending"}
  /\ st' = [e \in Eph |-> IF st[e] = "pending" THEN "traced" ELSE st[e]]
  /\ UNCHANGED <<g, pc, cur, todo, marked, grey, traced, pend, resolved, vals, eager>>
Next == Scan \/ Pop \/ Popped \/ Sweep
        \/ \E t \in T : Take(t) \/ Edge(t) \/ Marked(t) \/ Enqueue(t) \/ Claimed(t) \/ Publish(t) \/ Push(t) \/ ReCheck(t)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
---------------------------------------------------------------------------
RECURSIVE Cl(_)
Cl(S) == LET n == S \cup UNION {g.succ[o] : o \in S \cap Obj}
                    \cup ({g.val[e] : e \in {e \in S \cap Eph : g.key[e] \in S}} \ {None})
         IN IF n = S THEN S ELSE Cl(n)
\* Exactly what is reachable, with ephemerons, is marked; exactly those with
\* dead keys die; every value was traced once at most.
Right == phase = "done" =>
  /\ marked = Cl(g.roots)
  /\ dead = {e \in Cl(g.roots) \cap Eph : g.key[e] \notin Cl(g.roots)}
  /\ \A e \in Eph : st[e] = "traced" /\ vals[e] = (IF e \in marked \ dead THEN 1 ELSE 0)
Never == \A e \in Eph : vals[e] <= 1
Ends == <>(phase = "done")
=============================================================================
