------------------------------- MODULE HeapMC -------------------------------
(***************************************************************************)
(* Explores Heap.tla, and checks a collector that works step by step, the  *)
(* way the real ones do, against its declarative description of what a     *)
(* collection does: tracing from roots; ephemerons left pending when their *)
(* key is not marked, resolved when it is; finalizers by priority; and, if *)
(* Gen, minor collections that trace only what is young, from the roots    *)
(* and the remembered fields.                                              *)
(***************************************************************************)
EXTENDS Heap
CONSTANTS MaxObj, MaxEph, MaxFin, MaxOps, MaxGC, Gen, NPrio, Barrier
VARIABLES phase, minor, marked, grey, pending, fired, stage, todoF, ops, old, rem
cvars == <<phase, minor, marked, grey, pending, fired, stage, todoF, ops, old, rem>>
vars == <<hvars, cvars>>

Conf == [st |-> "mmc", cr |-> 0, ct |-> 0, gen |-> IF Gen THEN 1 ELSE 0, par |-> 0, ns |-> 2, nk |-> 2, nc |-> 1,
         hs |-> 0, np |-> NPrio, fixed |-> 1, ext |-> 0]
\* Identities are taken in order, to leave out symmetric histories.
Used == DOMAIN obj
Total == MaxObj + MaxEph + MaxFin
Kind(k) == {x \in Used : obj[x].k = k}
NextId == IF \E n \in 1..Total : n \notin Used THEN CHOOSE n \in 1..Total : n \notin Used /\ \A m \in 1..Total : m < n => m \in Used
          ELSE 0

Init == /\ HeapInit(Conf)
        /\ phase = "mutator" /\ minor = FALSE /\ marked = {} /\ grey = {} /\ pending = {} /\ fired = {}
        /\ stage = 0 /\ todoF = {} /\ ops = 0 /\ old = {} /\ rem = {}
Op == phase = "mutator" /\ ops < MaxOps /\ ops' = ops + 1
CSame == UNCHANGED <<phase, minor, marked, grey, pending, fired, stage, todoF, old>>
Ids == Used
MNew(s) == Op /\ NextId > 0 /\ Cardinality(Kind("vec")) < MaxObj /\ New(s, NextId, "vec", 2, 1, 1) /\ CSame /\ UNCHANGED rem
MSet(s, f, v) == Op /\ slots[s] > 0 /\ v \in Range(slots) /\ slots[s] \notin DOMAIN ep /\ slots[s] \notin FinIds
                 /\ Set(s, slots[s], f, v) /\ CSame
                 /\ rem' = IF Barrier /\ slots[s] \in old /\ v > 0 /\ v \notin old THEN rem \cup {<<slots[s], f>>} ELSE rem
MGet(s, f, d) == Op /\ slots[s] > 0 /\ slots[s] \notin DOMAIN ep /\ obj[slots[s]].f # << >>
                 /\ Get(s, slots[s], f, d, obj[slots[s]].f[f]) /\ CSame /\ UNCHANGED rem
MDrop(s) == Op /\ slots[s] > 0 /\ Drop({s}) /\ CSame /\ UNCHANGED rem
MEph(s, k, v) == Op /\ NextId > 0 /\ Cardinality(DOMAIN ep) < MaxEph /\ slots[k] > 0
                 /\ Eph(s, NextId, slots[k], slots[v]) /\ CSame /\ UNCHANGED rem
MPush(s) == Op /\ slots[s] \in DOMAIN ep /\ ep[slots[s]].st = "live" /\ slots[s] \notin ChainIds(1) /\ Push(1, slots[s])
            /\ CSame /\ UNCHANGED rem
MEphGet(s, dk, dv) == Op /\ slots[s] \in DOMAIN ep /\ dk # dv
                 /\ EphGet(s, slots[s], dk, dv, IF ep[slots[s]].st = "live" THEN ep[slots[s]].key ELSE 0,
                           IF ep[slots[s]].st = "live" THEN ep[slots[s]].val ELSE 0) /\ CSame /\ UNCHANGED rem
MKill(s) == Op /\ slots[s] \in DOMAIN ep /\ ep[slots[s]].st = "live" /\ Kill(s, slots[s]) /\ CSame /\ UNCHANGED rem
MFin(o, c, p) == Op /\ NextId > 0 /\ Cardinality(FinIds) < MaxFin /\ slots[o] > 0 /\ Attach(NextId, slots[o], slots[c], p)
            /\ CSame /\ UNCHANGED rem
MPop(f, so, sc) == Op /\ npend > 0 /\ so # sc /\ f \in FinIds /\ fins[f].st = "fired"
            /\ Pop(f, fins[f].obj, fins[f].clo, so, sc) /\ CSame /\ UNCHANGED rem
S == 1..2
Mutator == \/ \E s \in S : MNew(s) \/ MDrop(s) \/ MKill(s) \/ MPush(s)
           \/ \E s \in S, f \in 1..2, v \in Range(slots) : MSet(s, f, v)
           \/ \E s \in S, f \in 1..2, d \in S : MGet(s, f, d)
           \/ \E s \in S, k \in S, v \in S : MEph(s, k, v)
           \/ \E s \in S, d \in S, e \in S : MEphGet(s, d, e)
           \/ \E o \in S, c \in S, p \in 0..(NPrio - 1) : MFin(o, c, p)
           \/ \E f \in FinIds, s \in S, c \in S : MPop(f, s, c)
---------------------------------------------------------------------------
(* The collector. *)
HSame == UNCHANGED hvars
LiveEph == {e \in DOMAIN ep : ep[e].st = "live"}
RemVals == Pos({obj[r[1]].f[r[2]] : r \in {r \in rem : r[1] \in Used}})
CStart(m) ==
  /\ phase = "mutator" /\ ngc < MaxGC /\ (m => Gen /\ ngc > 0)
  /\ LET base == SlotRoots \cup (ChainIds(1) \cap LiveEph) \cup FinIds \cup FinClo \cup FinFiredObj
         seed == (base \cup IF m THEN RemVals ELSE {}) \ (IF m THEN old ELSE {})
     IN marked' = seed \cup (IF m THEN old ELSE {}) /\ grey' = seed
  /\ minor' = m /\ phase' = "trace" /\ pending' = {} /\ fired' = {} /\ stage' = 0 /\ todoF' = {}
  /\ UNCHANGED <<ops, old, rem>> /\ HSame
\* Marking a set of objects: new ones become grey, and resolve pending ephemerons once eager.
RECURSIVE MarkAll(_, _, _, _, _)
MarkAll(new, m, g, p, eager) ==
  LET n == new \ m IN
  IF n = {} THEN [m |-> m, g |-> g, p |-> p]
  ELSE LET res == IF eager THEN {e \in p : ep[e].key \in n} ELSE {}
       IN MarkAll(Pos({ep[e].val : e \in res}), m \cup n, g \cup n, p \ res, eager)
Trace(x) ==
  /\ phase \in {"trace", "eager"} /\ x \in grey
  /\ IF x \in LiveEph /\ ep[x].key \notin marked
     THEN grey' = grey \ {x} /\ pending' = pending \cup {x} /\ UNCHANGED marked
     ELSE LET new == IF x \in DOMAIN ep THEN (IF x \in LiveEph THEN Pos({ep[x].val}) ELSE {}) ELSE Out(x)
              r == MarkAll(new, marked, grey \ {x}, pending, phase = "eager")
          IN marked' = r.m /\ grey' = r.g /\ pending' = r.p
  /\ UNCHANGED <<phase, minor, fired, stage, todoF, ops, old, rem>> /\ HSame
\* Everything is traced: look at the pending ephemerons, or at the next finalizers.
Scan ==
  /\ phase = "trace" /\ grey = {}
  /\ LET res == {e \in pending : ep[e].key \in marked}
         r == MarkAll(Pos({ep[e].val : e \in res}), marked, {}, pending \ res, TRUE)
     IN marked' = r.m /\ grey' = r.g /\ pending' = r.p
  /\ phase' = "eager"
  /\ UNCHANGED <<minor, fired, stage, todoF, ops, old, rem>> /\ HSame
Finalizers ==
  /\ phase = "eager" /\ grey = {} /\ stage < cfg.np
  /\ LET dead == {f \in Unfired(stage) : fins[f].obj \notin marked}
         r == MarkAll(Pos({fins[f].obj : f \in dead}), marked, {}, pending, TRUE)
     IN fired' = fired \cup dead /\ marked' = r.m /\ grey' = r.g /\ pending' = r.p
  /\ stage' = stage + 1
  /\ UNCHANGED <<phase, minor, todoF, ops, old, rem>> /\ HSame
Finish ==
  /\ phase = "eager" /\ grey = {} /\ stage = cfg.np
  /\ Collected(minor, GCBounds(minor), Cardinality(fired))
  /\ phase' = "mutator" /\ old' = (marked \cap DOMAIN obj') /\ rem' = {} /\ marked' = {} /\ pending' = {} /\ fired' = {}
  /\ stage' = 0
  /\ UNCHANGED <<minor, grey, todoF, ops>>
Next == Mutator \/ (\E m \in BOOLEAN : CStart(m)) \/ (\E x \in grey : Trace(x)) \/ Scan \/ Finalizers \/ Finish
Spec == Init /\ [][Next]_vars
---------------------------------------------------------------------------
AtEnd == phase = "eager" /\ grey = {} /\ stage = cfg.np
\* The step-by-step collector ends in what Heap.tla says of a collection.
Exact == AtEnd => LET B == GCBounds(minor) IN
  /\ B.mustEnd \subseteq marked /\ marked \subseteq B.mayEnd \cup old
  /\ ~minor /\ (\A e \in ChainIds(1) : ep[e].st = "live") => marked = B.mustEnd /\ B.mustEnd = B.mayEnd
  /\ \A e \in DOMAIN ep \cap marked : e \in LiveEph =>
       /\ ep[e].key \in B.mustEnd => e \notin pending
       /\ ep[e].key \notin B.mayEnd => e \in pending
  /\ \A f \in FinIds : FinFate(f, B) = "fire" => f \in fired
  /\ \A f \in fired : FinFate(f, B) # "no"
\* ... and what it says is possible.
CanEnd == AtEnd => ENABLED Finish
\* Old objects refer to young ones by remembered fields only.
Remembered == phase = "mutator" /\ Gen => \A x \in old \cap DOMAIN obj : \A f \in DOMAIN obj[x].f :
                 obj[x].f[f] > 0 /\ obj[x].f[f] \notin old => <<x, f>> \in rem
Inv == TypeOK /\ NoDangling /\ Exact /\ CanEnd
=============================================================================
