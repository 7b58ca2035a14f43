------------------------------ MODULE Worklist ------------------------------
(* A bag of work shared by threads: what the worklists of the tracers must   *)
(* look like, whatever their algorithm.  An operation takes effect at one    *)
(* moment between its beginning and its end (linearizability): what is       *)
(* pushed is obtained exactly once, and a thread is told that there is       *)
(* nothing only if at some moment there was nothing.                         *)
EXTENDS Naturals, FiniteSets, Sequences, TLC

VARIABLES bag,      \* set of (unique) elements
          pend,     \* thread -> [op, xs, r, done]: operations that have begun
          relaxed   \* stores may be delayed: others may not see the latest push
wvars == <<bag, pend, relaxed>>

Range(q) == {q[i] : i \in DOMAIN q}
Put(f, k, v) == (k :> v) @@ f
Del(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
WInit == bag = {} /\ pend = [t \in {} |-> 0] /\ relaxed = FALSE

Begin(t, op, xs, r) == /\ t \notin DOMAIN pend
                       /\ pend' = Put(pend, t, [op |-> op, xs |-> Range(xs), r |-> r, done |-> FALSE])
                       /\ UNCHANGED <<bag, relaxed>>

\* The result r that an operation returns, and the bag b that it leaves.
Effect(p, b) ==
  CASE p.op = "push" -> p.xs \cap bag = {} /\ b = bag \cup p.xs
    [] p.op = "pop"  -> \/ p.r = 0 /\ bag = {} /\ b = bag
                        \/ p.r \in bag /\ b = bag \ {p.r}
    [] p.op = "steal" -> \/ p.r = 0 /\ (bag = {} \/ relaxed) /\ b = bag
                         \/ p.r \in bag /\ b = bag \ {p.r}
    [] p.op = "take" -> p.xs \subseteq bag /\ Cardinality(p.xs) = p.r /\ (p.r = 0 => bag = {}) /\ b = bag \ p.xs
    \* Only a hint, which may be wrong while others push or take.
    [] p.op = "can"  -> (p.r = (IF bag = {} THEN 0 ELSE 1) \/ relaxed \/ Cardinality(DOMAIN pend) > 1) /\ b = bag
    [] p.op = "size" -> p.r = Cardinality(bag) /\ b = bag
    [] p.op = "full" -> (p.r = 1 => bag # {}) /\ b = bag
Holds(p) == IF p THEN TRUE ELSE FALSE

\* The bag is a function of the old bag and the operation.
After(p) == CASE p.op = "push" -> bag \cup p.xs
              [] p.op \in {"pop", "steal"} -> bag \ {p.r}
              [] p.op = "take" -> bag \ p.xs
              [] OTHER -> bag
Take(t) == /\ t \in DOMAIN pend /\ ~pend[t].done
           /\ Holds(Effect(pend[t], After(pend[t])))
           /\ bag' = After(pend[t])
           /\ pend' = [pend EXCEPT ![t].done = TRUE]
           /\ UNCHANGED relaxed
End(t) == /\ t \in DOMAIN pend /\ pend[t].done
          /\ pend' = Del(pend, t) /\ UNCHANGED <<bag, relaxed>>
=============================================================================
