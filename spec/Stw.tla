-------------------------------- MODULE Stw ---------------------------------
(***************************************************************************)
(* How mmc and pcc stop the world: the heap lock, two condition variables, *)
(* the racy "collecting" flag and the counts of mutators, of paused and of *)
(* inactive ones.  Threads come and go, ask for collections of different   *)
(* kinds, poll a safepoint, and leave the collector's control for a while. *)
(* Condition variables may wake spuriously.  Checked: while a collector    *)
(* has the world stopped nobody runs; nobody is forgotten; a request is    *)
(* honoured by a collection that began after it and did as much; no        *)
(* deadlock, and (with fairness) no collection that never starts.          *)
(***************************************************************************)
EXTENDS Naturals, FiniteSets, TLC
CONSTANTS T, MaxGC, Kinds, Spurious

VARIABLES pc, lock, collecting, mcount, paused, inactive, kind, ngc,
          req,    \* thread -> kind asked for, and number of collections begun when it asked
          prev,   \* thread -> kind of the collection it last waited for, or 0
          wc, wm, \* waiting on collector_cond, mutator_cond
          best    \* thread -> greatest kind begun since its request
vars == <<pc, lock, collecting, mcount, paused, inactive, kind, ngc, req, prev, wc, wm, best>>

None == "none"
Running == {"run", "asking", "poll", "leaving", "deact"} \* executing mutator code
Init ==
  /\ pc = [t \in T |-> "out"] /\ lock = None /\ collecting = FALSE
  /\ mcount = 0 /\ paused = 0 /\ inactive = 0 /\ kind = 0 /\ ngc = 0
  /\ req = [t \in T |-> 0] /\ prev = [t \in T |-> 0] /\ best = [t \in T |-> 0]
  /\ wc = {} /\ wm = {}

AllStopped(p, i, m) == m = p + i
Go(t, l) == pc' = [pc EXCEPT ![t] = l]
Acquire(t, from, to) == pc[t] = from /\ lock = None /\ lock' = t /\ Go(t, to)

\* add_mutator
Arrive(t) == pc[t] = "out" /\ Go(t, "adding") /\ UNCHANGED <<lock, collecting, mcount, paused, inactive, kind, ngc, req, prev, wc, wm, best>>
AddLock(t) == Acquire(t, "adding", "add") /\ UNCHANGED <<collecting, mcount, paused, inactive, kind, ngc, req, prev, wc, wm, best>>
Add(t) ==
  /\ pc[t] = "add" /\ lock = t
  /\ IF collecting
     THEN /\ Go(t, "addwait") /\ wm' = wm \cup {t} /\ lock' = None /\ UNCHANGED mcount
     ELSE /\ mcount' = mcount + 1 /\ Go(t, "run") /\ lock' = None /\ UNCHANGED wm
  /\ UNCHANGED <<collecting, paused, inactive, kind, ngc, req, prev, wc, best>>
AddWoken(t) == t \notin wm /\ Acquire(t, "addwait", "add")
  /\ UNCHANGED <<collecting, mcount, paused, inactive, kind, ngc, req, prev, wc, wm, best>>

\* remove_mutator
Leave(t) == pc[t] = "run" /\ Go(t, "leaving")
  /\ UNCHANGED <<lock, collecting, mcount, paused, inactive, kind, ngc, req, prev, wc, wm, best>>
Remove(t) ==
  /\ pc[t] = "leaving" /\ lock = None
  /\ mcount' = mcount - 1
  /\ wc' = IF collecting /\ AllStopped(paused, inactive, mcount - 1) THEN {} ELSE wc
  /\ Go(t, "out")
  /\ UNCHANGED <<lock, collecting, paused, inactive, kind, ngc, req, prev, wm, best>>

\* gc_call_without_gc
Deact(t) ==
  /\ pc[t] = "run" /\ lock = None
  /\ inactive' = inactive + 1
  /\ wc' = IF AllStopped(paused, inactive + 1, mcount) THEN {} ELSE wc
  /\ Go(t, "away")
  /\ UNCHANGED <<lock, collecting, mcount, paused, kind, ngc, req, prev, wm, best>>
ReactLock(t) == Acquire(t, "away", "react")
  /\ UNCHANGED <<collecting, mcount, paused, inactive, kind, ngc, req, prev, wc, wm, best>>
React(t) ==
  /\ pc[t] = "react" /\ lock = t /\ lock' = None
  /\ IF collecting
     THEN Go(t, "reactwait") /\ wm' = wm \cup {t} /\ UNCHANGED inactive
     ELSE Go(t, "run") /\ inactive' = inactive - 1 /\ UNCHANGED wm
  /\ UNCHANGED <<collecting, mcount, paused, kind, ngc, req, prev, wc, best>>
ReactWoken(t) == t \notin wm /\ Acquire(t, "reactwait", "react")
  /\ UNCHANGED <<collecting, mcount, paused, inactive, kind, ngc, req, prev, wc, wm, best>>

\* gc_safepoint: the flag is read without the lock.
Poll(t) == pc[t] = "run" /\ collecting /\ Go(t, "poll") /\ req' = [req EXCEPT ![t] = 0]
  /\ prev' = [prev EXCEPT ![t] = 0]
  /\ UNCHANGED <<lock, collecting, mcount, paused, inactive, kind, ngc, wc, wm, best>>
\* trigger_collection
Ask(t, k) == pc[t] = "run" /\ ngc < MaxGC /\ Go(t, "asking") /\ req' = [req EXCEPT ![t] = k]
  /\ prev' = [prev EXCEPT ![t] = 0] /\ best' = [best EXCEPT ![t] = 0]
  /\ UNCHANGED <<lock, collecting, mcount, paused, inactive, kind, ngc, wc, wm>>
Enter(t) == (Acquire(t, "poll", "check") \/ Acquire(t, "asking", "check"))
  /\ UNCHANGED <<collecting, mcount, paused, inactive, kind, ngc, req, prev, wc, wm, best>>
\* while (mutators_are_stopping) pause; then maybe collect
Check(t) ==
  /\ pc[t] = "check" /\ lock = t
  /\ IF collecting
     THEN /\ paused' = paused + 1
          /\ wc' = IF AllStopped(paused + 1, inactive, mcount) THEN {} ELSE wc
          /\ Go(t, "pausing") /\ wm' = wm \cup {t} /\ lock' = None
          /\ UNCHANGED <<collecting, kind, best>>
     ELSE IF req[t] > prev[t]
     THEN /\ collecting' = TRUE /\ paused' = paused + 1
          /\ Go(t, "stopping") /\ UNCHANGED <<lock, wc, wm, kind, best>>
     ELSE /\ Go(t, IF req[t] > 0 THEN "served" ELSE "run") /\ lock' = None
          /\ UNCHANGED <<collecting, paused, wc, wm, kind, best>>
  /\ UNCHANGED <<mcount, inactive, ngc, req, prev>>
Pausing(t) == \* woken with the lock
  /\ pc[t] = "pausing" /\ t \notin wm /\ lock = None
  /\ IF collecting
     THEN /\ wm' = wm \cup {t} /\ UNCHANGED <<pc, lock, paused, prev>>
     ELSE /\ lock' = t /\ paused' = paused - 1 /\ prev' = [prev EXCEPT ![t] = kind]
          /\ Go(t, "check") /\ UNCHANGED wm
  /\ UNCHANGED <<collecting, mcount, inactive, kind, ngc, req, wc, best>>
\* collect
Stopping(t) ==
  /\ pc[t] = "stopping" /\ lock = t
  /\ IF AllStopped(paused, inactive, mcount)
     THEN Go(t, "gc") /\ UNCHANGED <<lock, wc>>
     ELSE Go(t, "stopwait") /\ wc' = wc \cup {t} /\ lock' = None
  /\ UNCHANGED <<collecting, mcount, paused, inactive, kind, ngc, req, prev, wm, best>>
StopWoken(t) == t \notin wc /\ Acquire(t, "stopwait", "stopping")
  /\ UNCHANGED <<collecting, mcount, paused, inactive, kind, ngc, req, prev, wc, wm, best>>
\* The collector may decide on something stronger than what was asked for.
GC(t, k) ==
  /\ pc[t] = "gc" /\ lock = t /\ k >= req[t]
  /\ kind' = k /\ ngc' = ngc + 1
  /\ best' = [u \in T |-> IF best[u] < k THEN k ELSE best[u]]
  /\ Go(t, "restart")
  /\ UNCHANGED <<lock, collecting, mcount, paused, inactive, req, prev, wc, wm>>
Restart(t) ==
  /\ pc[t] = "restart" /\ lock = t
  /\ paused' = paused - 1 /\ collecting' = FALSE /\ wm' = {} /\ lock' = None
  /\ Go(t, "served")
  /\ UNCHANGED <<mcount, inactive, kind, ngc, req, prev, wc, best>>
Served(t) == pc[t] = "served" /\ Go(t, "run")
  /\ UNCHANGED <<lock, collecting, mcount, paused, inactive, kind, ngc, req, prev, wc, wm, best>>

Wake == /\ Spurious
        /\ \/ \E t \in wc : wc' = wc \ {t} /\ UNCHANGED wm
           \/ \E t \in wm : wm' = wm \ {t} /\ UNCHANGED wc
        /\ UNCHANGED <<pc, lock, collecting, mcount, paused, inactive, kind, ngc, req, prev, best>>

Steps(t) == \/ AddLock(t) \/ Add(t) \/ AddWoken(t) \/ Remove(t) \/ ReactLock(t) \/ React(t)
            \/ ReactWoken(t) \/ Poll(t) \/ Enter(t) \/ Check(t) \/ Pausing(t) \/ Stopping(t)
            \/ StopWoken(t) \/ (\E k \in Kinds : GC(t, k)) \/ Restart(t) \/ Served(t)
Next == \/ \E t \in T : Steps(t) \/ Arrive(t) \/ Leave(t) \/ Deact(t) \/ (\E k \in Kinds : Ask(t, k))
        \/ Wake
Spec == Init /\ [][Next]_vars /\ \A t \in T : SF_vars(Steps(t))

Sym == Permutations(T)
---------------------------------------------------------------------------
InGC == \E t \in T : pc[t] \in {"gc", "restart"}
\* While the collector works no mutator runs, and nobody enters or leaves.
WorldStopped == InGC => \A t \in T : pc[t] \in {"gc", "restart", "pausing", "away", "out", "adding", "addwait",
                                               "reactwait"}
OneCollector == Cardinality({t \in T : pc[t] \in {"stopping", "stopwait", "gc", "restart"}}) <= 1
Counts ==
  /\ mcount = Cardinality({t \in T : pc[t] \notin {"out", "adding", "add", "addwait"}})
  /\ inactive = Cardinality({t \in T : pc[t] \in {"away", "react", "reactwait"}})
  /\ paused = Cardinality({t \in T : pc[t] \in {"pausing", "stopping", "stopwait", "gc", "restart"}})
\* A request returns only after a collection, begun since, of that kind or more.
Honoured == \A t \in T : pc[t] = "served" => best[t] >= req[t]
\* Once a stop is requested, it is reached.
Stops == \A t \in T : (pc[t] \in {"stopping", "stopwait"}) ~> (pc[t] = "gc")
Serves == \A t \in T : (pc[t] = "asking") ~> (pc[t] = "served")
=============================================================================
