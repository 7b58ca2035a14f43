----------------------------- MODULE Background -----------------------------
(* The background thread: from its start to its destruction it runs the      *)
(* registered tasks in rounds; a round runs every task that is registered,   *)
(* by priority, and those of one priority in the order they were added.      *)
(* Registration does not happen during a round.                              *)
EXTENDS Naturals, Integers, Sequences, TLC
VARIABLES state,   \* "none", "new", "running"
          tasks,   \* sequence of [tag, p]
          pos,     \* in a round: how many have run; 0 between rounds
          pend     \* thread -> call under way
bvars == <<state, tasks, pos, pend>>
Put(f, k, v) == (k :> v) @@ f
Del(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
Ops0 == [t \in {} |-> 0]
BInit == state = "none" /\ tasks = <<>> /\ pos = 0 /\ pend = Ops0

Make == state = "none" /\ state' = "new" /\ tasks' = <<>> /\ UNCHANGED <<pos, pend>>
Start == state = "new" /\ state' = "running" /\ UNCHANGED <<tasks, pos, pend>>
Begin(t, op, tag, p) == t \notin DOMAIN pend /\ pend' = Put(pend, t, [op |-> op, tag |-> tag, p |-> p, done |-> FALSE])
                        /\ UNCHANGED <<state, tasks, pos>>
End(t) == t \in DOMAIN pend /\ pend[t].done /\ pend' = Del(pend, t) /\ UNCHANGED <<state, tasks, pos>>

\* Where a task of priority p goes: before the first of a greater number.
Ins(p) == CHOOSE i \in 1..Len(tasks) + 1 :
            /\ \A j \in 1..i - 1 : tasks[j].p <= p
            /\ i <= Len(tasks) => tasks[i].p > p
Without(tag) == SelectSeq(tasks, LAMBDA x : x.tag # tag)
Effect(t) ==
  /\ t \in DOMAIN pend /\ ~pend[t].done /\ pos = 0
  /\ pend' = [pend EXCEPT ![t].done = TRUE]
  /\ LET c == pend[t] IN
     CASE c.op = "add" -> /\ LET i == Ins(c.p) IN
                             tasks' = SubSeq(tasks, 1, i - 1) \o <<[tag |-> c.tag, p |-> c.p]>> \o SubSeq(tasks, i, Len(tasks))
                          /\ UNCHANGED <<state, pos>>
       [] c.op = "rem" -> /\ \E i \in DOMAIN tasks : tasks[i].tag = c.tag
                          /\ tasks' = Without(c.tag) /\ UNCHANGED <<state, pos>>
       [] c.op = "dest" -> state = "running" /\ state' = "none" /\ tasks' = <<>> /\ UNCHANGED pos
RunTask(tag) == /\ state = "running" /\ pos < Len(tasks) /\ tasks[pos + 1].tag = tag
                /\ pos' = (pos + 1) % Len(tasks)
                /\ UNCHANGED <<state, tasks, pend>>
Sorted == \A i, j \in DOMAIN tasks : i < j => tasks[i].p < tasks[j].p \/ (tasks[i].p = tasks[j].p /\ tasks[i].tag # tasks[j].tag)
=============================================================================
