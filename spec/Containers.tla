----------------------------- MODULE Containers -----------------------------
(* The contracts of the address map, the address sets, the splay tree of     *)
(* disjoint spans and the extents: what lookups answer after any history of  *)
(* insertions and removals.                                                  *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

VARIABLES m,      \* map: key -> value
          s,      \* sets: 1, 2 -> set of keys
          t,      \* tree: start of span -> [n, v]
          e       \* extents: set of covered pages
cvars == <<m, s, t, e>>

EmptyFn == [x \in {} |-> 0]
Remove(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
CInit == m = EmptyFn /\ s = <<{}, {}>> /\ t = EmptyFn /\ e = {}

\* Address map.
MAdd(k, v) == m' = (k :> v) @@ m /\ UNCHANGED <<s, t, e>>
MRem(k) == k \in DOMAIN m /\ m' = Remove(m, k) /\ UNCHANGED <<s, t, e>>
MClear == m' = EmptyFn /\ UNCHANGED <<s, t, e>>
MHas(k) == k \in DOMAIN m
MGet(k, default) == IF k \in DOMAIN m THEN m[k] ELSE default
\* Address sets.
SAdd(i, k) == s' = [s EXCEPT ![i] = @ \cup {k}] /\ UNCHANGED <<m, t, e>>
SRem(i, k) == k \in s[i] /\ s' = [s EXCEPT ![i] = @ \ {k}] /\ UNCHANGED <<m, t, e>>
SClear(i) == s' = [s EXCEPT ![i] = {}] /\ UNCHANGED <<m, t, e>>
SUnion(i, j) == s' = [s EXCEPT ![i] = @ \cup s[j]] /\ UNCHANGED <<m, t, e>>
\* Tree of spans.
Owners(k) == {lo \in DOMAIN t : lo <= k /\ k < lo + t[lo].n}
TIns(lo, n, v) == /\ \A x \in lo..(lo + n - 1) : Owners(x) = {}
                  /\ t' = (lo :> [n |-> n, v |-> v]) @@ t /\ UNCHANGED <<m, s, e>>
Span(lo) == <<lo, t[lo].n, t[lo].v>>
TGet(k) == IF Owners(k) = {} THEN << >> ELSE Span(CHOOSE lo \in Owners(k) : TRUE)
TRem(k) == /\ Owners(k) # {} /\ t' = Remove(t, CHOOSE lo \in Owners(k) : TRUE)
           /\ UNCHANGED <<m, s, e>>
\* The span before the one that k is in.
TPrev(k) == LET B == {lo \in DOMAIN t : lo + t[lo].n <= k /\ lo \notin Owners(k)}
            IN IF B = {} THEN << >> ELSE Span(CHOOSE lo \in B : \A x \in B : x <= lo)
\* Extents.
EAdj(lo, n) == e' = e \cup (lo..(lo + n - 1)) /\ UNCHANGED <<m, s, t>>
EHas(c) == c \in e

Disjoint == \A x \in DOMAIN t : \A y \in DOMAIN t : x < y => x + t[x].n <= y
=============================================================================
