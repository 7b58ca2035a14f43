------------------------------ MODULE Platform ------------------------------
(* What the collectors assume of the layer below them: reserving address       *)
(* space and acquiring, discarding and releasing memory in it, and scanning    *)
(* metadata bytes. Addresses are page numbers.                                 *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

VARIABLES mem     \* page -> its contents (a number; 0: all zero), or -1: reserved but not to be accessed
Pages(lo, n) == lo..(lo + n - 1)
Put(P, v) == [x \in DOMAIN mem \cup P |-> IF x \in P THEN v ELSE mem[x]]
Free(P) == P \cap DOMAIN mem = {}
Has(P) == P \subseteq DOMAIN mem
Usable(P) == Has(P) /\ \A x \in P : mem[x] # -1
Aligned(lo, a) == IF a = 0 THEN TRUE ELSE lo % a = 0

Reserve(lo, n, a) == Free(Pages(lo, n)) /\ Aligned(lo, a) /\ mem' = Put(Pages(lo, n), -1)
Acquire(lo, n) == Has(Pages(lo, n)) /\ mem' = Put(Pages(lo, n), 0)
ReserveAcquire(lo, n, a) == Free(Pages(lo, n)) /\ Aligned(lo, a) /\ mem' = Put(Pages(lo, n), 0)
Write(x, v) == Usable({x}) /\ mem' = Put({x}, v)
Populate(lo, n) == Usable(Pages(lo, n)) /\ UNCHANGED mem
Discard(lo, n) == Usable(Pages(lo, n)) /\ mem' = Put(Pages(lo, n), 0)
Release(lo, n) == Has(Pages(lo, n)) /\ mem' = [x \in DOMAIN mem \ Pages(lo, n) |-> mem[x]]

\* ---------------------------------------------------------------- scans
RECURSIVE And(_, _)
And(a, b) == IF a = 0 \/ b = 0 THEN 0 ELSE (a % 2) * (b % 2) + 2 * And(a \div 2, b \div 2)
Match(kind, x, mask, t1, t2) == LET y == And(x, mask) IN
  CASE kind = 0 -> y # 0
    [] kind = 1 -> y = t1
    [] OTHER -> y \in {t1, t2}
RECURSIVE Scan(_, _, _, _, _, _, _)
\* How many bytes of s, up to limit, there are before the first that matches.
Scan(s, i, limit, kind, mask, t1, t2) ==
  IF i = limit \/ Match(kind, s[i + 1], mask, t1, t2) THEN i ELSE Scan(s, i + 1, limit, kind, mask, t1, t2)
=============================================================================
