------------------------------- MODULE Forward ------------------------------
(***************************************************************************)
(* Moving one object while several tracers find it through several edges:  *)
(* the forwarding word (tag, busy, or new address), the mark byte of the   *)
(* object and of its copy, and allocation of the copy, which may fail, in  *)
(* which case the object is marked where it is.  As nofl-space.h does it.  *)
(***************************************************************************)
EXTENDS Naturals, FiniteSets, TLC
CONSTANTS T,          \* tracers
          E,          \* edges, each found by some tracer
          MarkFirst,  \* TRUE: the copy is marked before its address is published
          Recheck,    \* TRUE: the mark is checked again after claiming
          Abort       \* TRUE: when copying fails, the forwarding word is restored

VARIABLES todo, pc, cur, word, mark, copies, cmark, edge, enq, mine, late
\* todo: edges not yet visited; cur: tracer -> its edge; word: forwarding word;
\* copies: set of copies made; cmark: marked copies; edge: where each edge points;
\* enq: how often [place] was enqueued to be traced; mine: tracer -> its copy
\* late: edges found by tracing the copy (they point to the copy already)
vars == <<todo, pc, cur, word, mark, copies, cmark, edge, enq, mine, late>>
Old == 0
Busy == 99
None == "none"
Init ==
  /\ todo = E /\ pc = [t \in T |-> "idle"] /\ cur = [t \in T |-> None]
  /\ word = Old /\ mark = FALSE /\ copies = {} /\ cmark = {}
  /\ edge = [e \in E |-> Old] /\ enq = [p \in 0..Cardinality(T) |-> 0] /\ mine = [t \in T |-> 0]
  /\ late = {}
Go(t, l) == pc' = [pc EXCEPT ![t] = l]
Take(t) == pc[t] = "idle" /\ \E e \in todo : todo' = todo \ {e} /\ cur' = [cur EXCEPT ![t] = e] /\ Go(t, "look")
  /\ UNCHANGED <<word, mark, copies, cmark, edge, enq, mine, late>>
\* evacuate_or_mark_object: marked already?
Look(t) == pc[t] = "look" /\ Go(t, IF mark THEN "idle" ELSE "begin")
  /\ UNCHANGED <<todo, cur, word, mark, copies, cmark, edge, enq, mine, late>>
Begin(t) ==
  /\ pc[t] = "begin"
  /\ IF word = Old THEN Go(t, "claim") ELSE IF word = Busy THEN Go(t, "spin") ELSE Go(t, "follow")
  /\ UNCHANGED <<todo, cur, word, mark, copies, cmark, edge, enq, mine, late>>
Claim(t) == \* compare and swap
  /\ pc[t] = "claim"
  /\ IF word = Old THEN word' = Busy /\ Go(t, IF Recheck THEN "recheck" ELSE "copy")
     ELSE UNCHANGED word /\ Go(t, IF word = Busy THEN "spin" ELSE "follow")
  /\ UNCHANGED <<todo, cur, mark, copies, cmark, edge, enq, mine, late>>
ReCheck(t) ==
  /\ pc[t] = "recheck"
  /\ IF mark THEN word' = Old /\ Go(t, "idle") ELSE Go(t, "copy") /\ UNCHANGED word
  /\ UNCHANGED <<todo, cur, mark, copies, cmark, edge, enq, mine, late>>
Copy(t) ==
  /\ pc[t] = "copy"
  /\ \/ LET n == Cardinality(copies) + 1 IN
        /\ copies' = copies \cup {n} /\ mine' = [mine EXCEPT ![t] = n]
        /\ cmark' = IF MarkFirst THEN cmark \cup {n} ELSE cmark
        /\ Go(t, "commit") /\ UNCHANGED mark
     \/ Go(t, "fail") /\ mark' = TRUE /\ UNCHANGED <<copies, mine, cmark>>
  /\ UNCHANGED <<todo, cur, word, edge, enq, late>>
Fail(t) ==
  /\ pc[t] = "fail" /\ word' = IF Abort THEN Old ELSE Busy
  /\ enq' = [enq EXCEPT ![0] = @ + 1] /\ Go(t, "idle")
  /\ UNCHANGED <<todo, cur, mark, copies, cmark, edge, mine, late>>
Commit(t) == pc[t] = "commit" /\ word' = mine[t] /\ Go(t, "finish")
  /\ UNCHANGED <<todo, cur, mark, copies, cmark, edge, enq, mine, late>>
\* Whoever set the mark of the copy enqueues it.
Finish(t) ==
  /\ pc[t] = "finish"
  /\ edge' = [edge EXCEPT ![cur[t]] = mine[t]]
  /\ IF MarkFirst THEN enq' = [enq EXCEPT ![mine[t]] = @ + 1] /\ UNCHANGED cmark
     ELSE /\ cmark' = cmark \cup {mine[t]}
          /\ enq' = [enq EXCEPT ![mine[t]] = @ + 1]
  /\ Go(t, "idle")
  /\ UNCHANGED <<todo, cur, word, mark, copies, mine, late>>
Spin(t) ==
  /\ pc[t] = "spin" /\ word # Busy
  /\ Go(t, IF word = Old THEN "idle" ELSE "follow")
  /\ UNCHANGED <<todo, cur, word, mark, copies, cmark, edge, enq, mine, late>>
Follow(t) ==
  /\ pc[t] = "follow" /\ edge' = [edge EXCEPT ![cur[t]] = word] /\ Go(t, "idle")
  /\ UNCHANGED <<todo, cur, word, mark, copies, cmark, enq, mine, late>>
\* An edge that already refers to the copy, whose block is not evacuated:
\* it is marked and enqueued unless it is marked.
Again(t) ==
  /\ pc[t] = "idle"
  /\ \E e \in E \ late :
       /\ edge[e] \in copies /\ late' = late \cup {e}
       /\ IF edge[e] \in cmark THEN UNCHANGED <<cmark, enq>>
          ELSE cmark' = cmark \cup {edge[e]} /\ enq' = [enq EXCEPT ![edge[e]] = @ + 1]
  /\ UNCHANGED <<todo, cur, pc, word, mark, copies, edge, mine>>
Next == \E t \in T : Take(t) \/ Look(t) \/ Begin(t) \/ Claim(t) \/ ReCheck(t) \/ Copy(t) \/ Fail(t)
                     \/ Commit(t) \/ Finish(t) \/ Spin(t) \/ Follow(t) \/ Again(t)
Spec == Init /\ [][Next]_vars /\ \A t \in T : WF_vars(Take(t) \/ Look(t) \/ Begin(t) \/ Claim(t) \/ ReCheck(t)
          \/ Copy(t) \/ Fail(t) \/ Commit(t) \/ Finish(t) \/ Spin(t) \/ Follow(t))
Sym == Permutations(T) \cup Permutations(E)
---------------------------------------------------------------------------
Done == todo = {} /\ \A t \in T : pc[t] = "idle"
OneCopy == Cardinality(copies) <= 1
NotBoth == copies = {} \/ ~mark
TracedOnce == \A p \in DOMAIN enq : enq[p] <= 1
Final == Done =>
  /\ enq[0] + (IF copies = {} THEN 0 ELSE enq[1]) = 1
  /\ \A e \in E : edge[e] = IF copies = {} THEN Old ELSE 1
  /\ word = IF copies = {} THEN Old ELSE 1
Ends == <>Done
\* KNOWN-FINDING busy-header: does not hold of the code.  An object that is being
\* traced in place has its header.
HeaderKept == enq[0] > 0 => word # Busy
=============================================================================
