------------------------------- MODULE Heap --------------------------------
(***************************************************************************)
(* The contract of a Whippet heap, as a mutator can observe it.            *)
(*                                                                         *)
(* State: an object graph, mutator handle slots and global slots (roots),  *)
(* ephemeron chains (roots), a finalizer table, pinned objects, and which  *)
(* part of every abstract object has been allocated since the last         *)
(* collection.  One action per API call, plus one action GC(..) for a      *)
(* collection, which is characterised declaratively: the collector must    *)
(* keep everything in a Must set and may keep at most a May set; for       *)
(* precise non-generational collection the two coincide, so the collection *)
(* is exact.  HeapMC.tla explores this module exhaustively and checks a    *)
(* step-by-step collector against it; HeapTrace.tla checks recorded        *)
(* executions of the real collectors against it.                           *)
(*                                                                         *)
(* An abstract object may be made of several nodes (a list, a tree, a      *)
(* vector with its elements); nn[id] is how many and yy[id] how many of    *)
(* them are younger than the last collection.                              *)
(* Values: 0 is null, positive is an object id, negative an immediate.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES
  cfg,      \* configuration of the collector
  obj,      \* id -> [k, f]: kind and fields
  nn, yy,   \* id -> nodes, young nodes
  ep,       \* ephemeron id -> [key, val, st]; st in {"live","unsure","dead"}
  slots,    \* sequence of values
  chains,   \* sequence of sequences of ephemeron ids, newest first
  fins,     \* finalizer id -> [obj, clo, p, st]; st in {"att","maybe","fired"}
  npend,    \* number of finalizers fired and not yet popped
  pinned,   \* set of ids
  refilled, \* vectors of which elements were replaced
  ngc       \* collections so far
hvars == <<cfg, obj, nn, yy, ep, slots, chains, fins, npend, pinned, refilled, ngc>>

\* Evaluate a state predicate as a value: inside an action, TLC would explore
\* every disjunct of it as a separate successor.
Holds(p) == IF p THEN TRUE ELSE FALSE
EmptyFn == [x \in {} |-> 0]
Range(s) == {s[i] : i \in DOMAIN s}
Pos(S) == {v \in S : v > 0}
Restrict(f, S) == [x \in (DOMAIN f) \cap S |-> f[x]]

HeapInit(c) ==
  /\ cfg = c
  /\ obj = EmptyFn /\ nn = EmptyFn /\ yy = EmptyFn /\ ep = EmptyFn
  /\ slots = [i \in 1..c.ns |-> 0]
  /\ chains = [i \in 1..c.nc |-> << >>]
  /\ fins = EmptyFn /\ npend = 0 /\ pinned = {} /\ refilled = {} /\ ngc = 0

HeapReset(c) ==
  /\ cfg' = c
  /\ obj' = EmptyFn /\ nn' = EmptyFn /\ yy' = EmptyFn /\ ep' = EmptyFn
  /\ slots' = [i \in 1..c.ns |-> 0]
  /\ chains' = [i \in 1..c.nc |-> << >>]
  /\ fins' = EmptyFn /\ npend' = 0 /\ pinned' = {} /\ refilled' = {} /\ ngc' = 0

---------------------------------------------------------------------------
(* Reachability. *)

\* Strong edges out of x.  Ephemerons have none; finalizers hold their object
\* and closure but are handled by FinRoots below.
Out(x) == IF x \in DOMAIN obj THEN Pos(Range(obj[x].f)) ELSE {}

RECURSIVE ReachFrom(_, _)
ReachFrom(frontier, seen) ==
  IF frontier = {} THEN seen
  ELSE LET s2 == seen \cup frontier
       IN ReachFrom((UNION {Out(x) : x \in frontier}) \ s2, s2)
Reach(S) == ReachFrom(S, {})

\* Closure under strong edges and under the ephemerons in E: if an ephemeron
\* and its key are in the set, then so is its value.
RECURSIVE EphReachFrom(_, _, _)
EphReachFrom(frontier, seen, E) ==
  LET s1 == ReachFrom(frontier, seen)
      add == Pos({ep[e].val : e \in {e \in E \cap s1 : ep[e].key \in s1}}) \ s1
  IN IF add = {} THEN s1 ELSE EphReachFrom(add, s1, E)

SureEph == TLCEval({e \in DOMAIN ep : ep[e].st = "live"})
MaybeEph == TLCEval({e \in DOMAIN ep : ep[e].st # "dead"})

SlotRoots == Pos(Range(slots))
ChainIds(c) == Range(chains[c])
\* Members of a chain that are certainly alive are kept by the chain; the
\* others may be linked still.
ChainMust == UNION {{e \in ChainIds(c) : ep[e].st = "live"} : c \in DOMAIN chains}
ChainMay == UNION {ChainIds(c) : c \in DOMAIN chains}

FinIds == DOMAIN fins
FinClo == Pos({fins[f].clo : f \in FinIds})
FinFiredObj == Pos({fins[f].obj : f \in {f \in FinIds : fins[f].st = "fired"}})
FinMaybeObj == Pos({fins[f].obj : f \in {f \in FinIds : fins[f].st = "maybe"}})
Unfired(p) == {f \in FinIds : fins[f].p = p /\ fins[f].st # "fired"}

\* The Must and May sets after tracing the roots (stage 0), and after
\* resolving finalizers of priorities below p (stage p).
\* (BDW keeps one finalizer per object, so it promises nothing about closures
\* of those that have been replaced.)
Must0 == IF cfg.st = "bdw" THEN Reach(SlotRoots) ELSE EphReachFrom(SlotRoots \cup ChainMust \cup FinIds \cup FinClo \cup FinFiredObj,
                      {}, SureEph)
May0(extra) == EphReachFrom(SlotRoots \cup ChainMay \cup FinIds \cup FinClo \cup FinFiredObj
                             \cup FinMaybeObj \cup extra,
                            {}, MaybeEph)
\* (BDW does not know about priorities.)
NextStage(S, p, E) ==
  IF cfg.st = "bdw" THEN S ELSE EphReachFrom(Pos({fins[f].obj : f \in Unfired(p)}) \ S, S, E)

\* A sequence of the closures at each stage: <<S0, S1, .., Sn>>.
RECURSIVE StagesFrom(_, _, _)
StagesFrom(sofar, p, E) ==
  IF p >= cfg.np THEN sofar
  ELSE StagesFrom(Append(sofar, NextStage(sofar[Len(sofar)], p, E)), p + 1, E)
Stages(S0, E) == StagesFrom(<<S0>>, 0, E)

---------------------------------------------------------------------------
(* Mutator actions. *)

Fresh(id) == id \notin DOMAIN obj

\* A fresh object never coincides with a retained one; the trace names
\* objects by identity, so here freshness is of the identity.
New(s, id, k, nf, n, y) ==
  /\ Fresh(id)
  /\ obj' = obj @@ (id :> [k |-> k, f |-> [i \in 1..nf |-> 0]])
  /\ nn' = nn @@ (id :> n) /\ yy' = yy @@ (id :> y)
  /\ slots' = [slots EXCEPT ![s] = id]
  /\ UNCHANGED <<cfg, ep, chains, fins, npend, pinned, refilled, ngc>>

Grow(id, n, y) ==
  /\ id \in DOMAIN obj
  /\ n >= nn[id] /\ y >= 0 /\ y <= n
  /\ nn' = [nn EXCEPT ![id] = n] /\ yy' = [yy EXCEPT ![id] = y]
  /\ UNCHANGED <<cfg, obj, ep, slots, chains, fins, npend, pinned, refilled, ngc>>

Refill(s, id, y) ==
  /\ slots[s] = id /\ id \in DOMAIN obj
  /\ yy' = [yy EXCEPT ![id] = y]
  /\ refilled' = refilled \cup {id}
  /\ UNCHANGED <<cfg, obj, nn, ep, slots, chains, fins, npend, pinned, ngc>>

Set(s, id, f, v) ==
  /\ slots[s] = id /\ id \in DOMAIN obj
  /\ f \in DOMAIN obj[id].f
  /\ Holds(v > 0 => v \in DOMAIN obj)
  /\ obj' = [obj EXCEPT ![id].f[f] = v]
  /\ UNCHANGED <<cfg, nn, yy, ep, slots, chains, fins, npend, pinned, refilled, ngc>>

\* Reading a field yields what was last written there.
Get(s, id, f, d, v) ==
  /\ slots[s] = id /\ id \in DOMAIN obj
  /\ f \in DOMAIN obj[id].f
  /\ obj[id].f[f] = v
  /\ slots' = [slots EXCEPT ![d] = v]
  /\ UNCHANGED <<cfg, obj, nn, yy, ep, chains, fins, npend, pinned, refilled, ngc>>

Mov(s, d, v) ==
  /\ slots[s] = v
  /\ slots' = [slots EXCEPT ![d] = v]
  /\ UNCHANGED <<cfg, obj, nn, yy, ep, chains, fins, npend, pinned, refilled, ngc>>

Drop(S) ==
  /\ slots' = [i \in DOMAIN slots |-> IF i \in S THEN 0 ELSE slots[i]]
  /\ UNCHANGED <<cfg, obj, nn, yy, ep, chains, fins, npend, pinned, refilled, ngc>>

Pin(s, id) ==
  /\ slots[s] = id
  /\ pinned' = pinned \cup {id}
  /\ UNCHANGED <<cfg, obj, nn, yy, ep, slots, chains, fins, npend, refilled, ngc>>

Eph(s, id, key, val) ==
  /\ Fresh(id) /\ key \in DOMAIN obj
  /\ Holds(val > 0 => val \in DOMAIN obj)
  /\ obj' = obj @@ (id :> [k |-> "eph", f |-> << >>])
  /\ nn' = nn @@ (id :> 1) /\ yy' = yy @@ (id :> 1)
  /\ ep' = ep @@ (id :> [key |-> key, val |-> val, st |-> "live"])
  /\ slots' = [slots EXCEPT ![s] = id]
  /\ UNCHANGED <<cfg, chains, fins, npend, pinned, refilled, ngc>>

Push(c, id) ==
  /\ id \in DOMAIN ep
  /\ chains' = [chains EXCEPT ![c] = <<id>> \o @]
  /\ UNCHANGED <<cfg, obj, nn, yy, ep, slots, fins, npend, pinned, refilled, ngc>>

\* Does ephemeron e, as specified, admit being seen with this key and value?
EphSees(e, key, val) ==
  CASE ep[e].st = "live" -> key = ep[e].key /\ val = ep[e].val
    [] ep[e].st = "dead" -> key = 0 /\ val \in {0, ep[e].val}
    [] OTHER -> \/ key = ep[e].key /\ val = ep[e].val
                \/ key = 0 /\ val = 0
\* What seeing that key teaches.
EphLearn(e, key) == [ep[e] EXCEPT !.st = IF key = 0 THEN "dead" ELSE "live",
                                  !.val = IF key = 0 THEN 0 ELSE @]

EphGet(s, id, dk, dv, key, val) ==
  /\ slots[s] = id /\ id \in DOMAIN ep
  /\ Holds(EphSees(id, key, val))
  /\ ep' = [ep EXCEPT ![id] = EphLearn(id, key)]
  /\ slots' = [slots EXCEPT ![dk] = key, ![dv] = val]
  /\ UNCHANGED <<cfg, obj, nn, yy, chains, fins, npend, pinned, refilled, ngc>>

Kill(s, id) ==
  /\ slots[s] = id /\ id \in DOMAIN ep
  /\ ep' = [ep EXCEPT ![id].st = "dead"]
  /\ UNCHANGED <<cfg, obj, nn, yy, slots, chains, fins, npend, pinned, refilled, ngc>>

\* Iterating over a chain visits the live members, newest first.
ChainIter(c, ids, d, v) ==
  LET cur == chains[c]
      seen == Range(ids)
  IN
  /\ Holds(\A i \in DOMAIN cur : ep[cur[i]].st = "live" => cur[i] \in seen)
  /\ Holds(\A i \in DOMAIN cur : ep[cur[i]].st = "dead" => cur[i] \notin seen)
  /\ ids = SelectSeq(cur, LAMBDA e : e \in seen)
  /\ v = IF ids = << >> THEN 0 ELSE ids[Len(ids)]
  /\ chains' = [chains EXCEPT ![c] = ids]
  /\ ep' = [e \in DOMAIN ep |->
              IF e \in seen THEN [ep[e] EXCEPT !.st = "live"]
              ELSE IF e \in Range(cur) THEN [ep[e] EXCEPT !.st = "dead"]
              ELSE ep[e]]
  /\ slots' = [slots EXCEPT ![d] = v]
  /\ UNCHANGED <<cfg, obj, nn, yy, fins, npend, pinned, refilled, ngc>>

Attach(id, o, clo, p) ==
  /\ Fresh(id) /\ o \in DOMAIN obj
  /\ Holds(clo > 0 => clo \in DOMAIN obj)
  /\ p \in 0..(cfg.np - 1)
  /\ obj' = obj @@ (id :> [k |-> "fin", f |-> << >>])
  /\ nn' = nn @@ (id :> 1) /\ yy' = yy @@ (id :> 1)
  /\ fins' = fins @@ (id :> [obj |-> o, clo |-> clo, p |-> p, st |-> "att"])
  /\ UNCHANGED <<cfg, ep, slots, chains, npend, pinned, refilled, ngc>>

\* A finalizer comes out of the queue once, with its object and closure.
\* (BDW runs its own queue and does not say how many entries it has.)
PopNone(others) ==
  /\ Holds(cfg.st = "bdw" \/ npend <= others)
  /\ UNCHANGED hvars
Pop(id, o, clo, so, sc) ==
  /\ Holds(cfg.st = "bdw" \/ npend > 0)
  /\ id \in DOMAIN fins
  /\ fins[id].st \in {"fired", "maybe"}
  /\ fins[id].obj = o /\ fins[id].clo = clo
  /\ npend' = IF cfg.st = "bdw" THEN 0 ELSE npend - 1
  \* When the queue has run empty, what might have fired did not.
  /\ fins' = LET rest == Restrict(fins, DOMAIN fins \ {id})
             IN IF npend > 1 \/ cfg.st = "bdw" THEN rest
                ELSE [f \in DOMAIN rest |-> [rest[f] EXCEPT !.st = "att"]]
  /\ Holds(npend = 1 => \A f \in DOMAIN fins \ {id} : fins[f].st # "fired")
  /\ slots' = [slots EXCEPT ![so] = o, ![sc] = clo]
  /\ UNCHANGED <<cfg, obj, nn, yy, ep, chains, pinned, refilled, ngc>>

---------------------------------------------------------------------------
(* A collection.                                                           *)

\* What can be established about a collection of the given kind: the
\* bounds, the fate of every finalizer and ephemeron.
GCBounds(minor) ==
  LET exact == ~minor /\ cfg.cr = 0 /\ cfg.ct = 0
      cons == cfg.cr = 1 \/ cfg.ct = 1
      old == IF minor THEN {x \in DOMAIN obj : yy[x] < nn[x]} ELSE {}
      must == TLCEval(Stages(Must0, SureEph))
      may == TLCEval(IF cons THEN [i \in 1..(cfg.np + 1) |-> DOMAIN obj]
                     ELSE Stages(May0(old), MaybeEph))
  IN TLCEval([must |-> must, may |-> may,
              mustEnd |-> must[Len(must)], mayEnd |-> may[Len(may)]])

\* Finalizers whose object is dead at their stage fire, one per object and
\* stage; fate is "fire", "no" or "maybe".
FinFate(f, B) ==
  LET p == fins[f].p
      o == fins[f].obj
      rivals == {g \in Unfired(p) : fins[g].obj = o}
  IN IF fins[f].st = "fired" THEN "no"
     ELSE IF o \in B.must[p + 1] THEN "no"
     ELSE IF o \notin B.may[p + 1] /\ Cardinality(rivals) = 1 /\ fins[f].st = "att"
          THEN "fire"
     ELSE "maybe"

\* Finalizers of one object and priority among which one fires for certain.
SureGroups(B) ==
  LET sure(p) == {fins[f].obj : f \in {f \in Unfired(p) :
                    /\ fins[f].obj \notin B.may[p + 1]
                    /\ \A g \in Unfired(p) : fins[g].obj = fins[f].obj => fins[g].st = "att"}}
      RECURSIVE Sum(_)
      Sum(p) == IF p >= cfg.np THEN 0 ELSE Cardinality(sure(p)) + Sum(p + 1)
  IN Sum(0)
Fates(B) == TLCEval([f \in FinIds |-> FinFate(f, B)])

FinsAfter(fate, fired) ==
  LET sure == TLCEval({f \in FinIds : fate[f] = "fire"})
      may == TLCEval({f \in FinIds : fate[f] # "no"})
      all == Cardinality(may) = fired
  IN [f \in FinIds |->
       IF cfg.st = "bdw"
       THEN IF f \in may THEN [fins[f] EXCEPT !.st = "maybe"] ELSE fins[f]
       ELSE IF f \in sure \/ (all /\ f \in may) THEN [fins[f] EXCEPT !.st = "fired"]
       ELSE IF f \in may /\ fired > Cardinality(sure) THEN [fins[f] EXCEPT !.st = "maybe"]
       ELSE fins[f]]

EphAfter(B) ==
  [e \in DOMAIN ep |->
     IF ep[e].st = "dead" THEN ep[e]
     ELSE IF ep[e].key \notin B.mayEnd THEN [ep[e] EXCEPT !.st = "dead", !.val = 0]
     ELSE IF ep[e].key \in B.mustEnd THEN ep[e]
     ELSE [ep[e] EXCEPT !.st = "unsure"]]

\* What a later action could still refer to.
Referable(minor, B) ==
  LET eph2 == TLCEval(EphAfter(B))
      live(x) == IF x \in DOMAIN eph2 /\ eph2[x].st # "dead"
                 THEN Pos({eph2[x].key, eph2[x].val}) ELSE {}
      RECURSIVE Go(_, _)
      Go(fr, seen) == IF fr = {} THEN seen
        ELSE LET s2 == seen \cup fr
             IN Go((UNION {Out(x) \cup live(x) : x \in fr}) \ s2, s2)
      base == SlotRoots \cup ChainMay \cup FinIds \cup FinClo \cup Pos({fins[f].obj : f \in FinIds})
  IN IF cfg.gen = 1 /\ cfg.cr = 0 /\ cfg.ct = 0
     THEN B.mayEnd \cup Go(base, {})
     ELSE Go(base, {})

Collected(minor, B, fired) ==
  LET keep == TLCEval(Referable(minor, B))
      fate == Fates(B)
  IN
  /\ Holds(cfg.st = "bdw" \/ (/\ fired >= SureGroups(B)
                              /\ fired <= Cardinality({f \in FinIds : fate[f] # "no"})))
  /\ fins' = FinsAfter(fate, fired)
  /\ npend' = IF cfg.st = "bdw" THEN 0 ELSE npend + fired
  /\ ep' = Restrict(EphAfter(B), keep)
  /\ obj' = Restrict(obj, keep)
  /\ nn' = Restrict(nn, keep)
  /\ yy' = [x \in (DOMAIN nn) \cap keep |-> 0]
  /\ pinned' = pinned \cap keep
  /\ refilled' = refilled \cap keep
  /\ ngc' = ngc + 1
  /\ UNCHANGED <<cfg, slots, chains>>

---------------------------------------------------------------------------
(* Properties of the state. *)
TypeOK ==
  /\ DOMAIN nn = DOMAIN obj /\ DOMAIN yy = DOMAIN obj
  /\ DOMAIN ep \subseteq DOMAIN obj
  /\ \A x \in DOMAIN obj : yy[x] \in 0..nn[x]
\* Nothing that a mutator can reach refers to something that is gone.
NoDangling ==
  LET r == EphReachFrom(SlotRoots \cup ChainMust \cup FinIds \cup FinClo \cup FinFiredObj, {}, SureEph)
  IN r \subseteq DOMAIN obj
=============================================================================
