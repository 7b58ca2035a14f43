------------------------------- MODULE Space -------------------------------
(***************************************************************************)
(* The heap as a budget.  A program keeps groups of objects alive, drops   *)
(* them and makes garbage; the collector answers with collections, with    *)
(* changes of the heap size, or by giving up for want of space.  What it   *)
(* may do depends only on how many bytes are certainly live (low), how     *)
(* many can possibly be in use (up), and on the sizing policy.             *)
(* Sizes of the heap and of live data are in KB, groups are in bytes.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Copying,   \* collectors that keep a copy reserve
          Exact,     \* collectors whose live-data-size event tells what this collection kept
          Delayed    \* ... what the collection before it kept

VARIABLES h,      \* the heap: collector, policy, size, multiplier in percent
          grp,    \* group id -> bytes, for groups that may be in use
          low, up,\* bytes
          ctr,    \* last allocation counter seen (KB)
          al,     \* allocation: bytes still to be counted as KB; KB allocated; KB
                  \* that a counter being read must include
          first,  \* size at initialization
          last    \* at the collection before: live data (KB), and what was certainly live (bytes)
svars == <<h, grp, low, up, ctr, al, first, last>>

NoHeap == [c |-> "none", pol |-> "none", hs |-> 0, mult |-> 0, gen |-> 0, th |-> 1, alive |-> FALSE]
NoLast == [live |-> 0, low |-> 0]
NoAl == [b |-> 0, kb |-> 0, gc |-> 0, must |-> 0]
Allocated(b, kb) == [al EXCEPT !.b = (@ + b) % 1024, !.kb = @ + kb + (al.b + b) \div 1024]
SInit == h = NoHeap /\ grp = <<>> /\ low = 0 /\ up = 0 /\ ctr = 0 /\ al = NoAl /\ first = 0 /\ last = NoLast

Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b

(* Percent of the heap that must possibly be in use before a fixed-size     *)
(* heap may give up: the rest is copy reserve, metadata and fragmentation.  *)
Enough == IF h.c = "bdw" THEN IF h.th > 1 THEN 0 ELSE 25    \* (not whippet's own)
          ELSE IF h.c = "generational-pcc" THEN 38
          ELSE IF h.c \in Copying THEN 43
          ELSE 75

Start(c, pol, hs, mult, gen, th) ==
  /\ h' = [c |-> c, pol |-> pol, hs |-> hs, mult |-> mult, gen |-> gen, th |-> th, alive |-> TRUE]
  /\ grp' = <<>> /\ low' = 0 /\ up' = 0 /\ ctr' = 0 /\ al' = NoAl /\ first' = hs /\ last' = NoLast

(* A group starts to be allocated: any part of it may be in use.           *)
Begin(id, b) == /\ h.alive /\ id \notin DOMAIN grp
                /\ grp' = grp @@ (id :> b) /\ up' = up + b
                /\ UNCHANGED <<h, low, ctr, al, first, last>>
(* All of it is allocated, and live.  A fixed-size heap never holds more   *)
(* than its size.                                                          *)
Complete(id) == /\ h.alive /\ id \in DOMAIN grp
                /\ low' = low + grp[id]
                /\ h.pol = "fixed" => low' \div 1024 <= h.hs
                /\ al' = Allocated(grp[id], 0)
                /\ UNCHANGED <<h, grp, up, ctr, first, last>>
DropBegin(id) == /\ h.alive /\ id \in DOMAIN grp /\ low' = low - grp[id]
                 /\ UNCHANGED <<h, grp, up, ctr, al, first, last>>
DropEnd(id) == /\ h.alive /\ id \in DOMAIN grp /\ up' = up - grp[id]
               /\ grp' = [g \in DOMAIN grp \ {id} |-> grp[g]]
               /\ UNCHANGED <<h, low, ctr, al, first, last>>
(* Garbage of kb KB in all is made; of it, b bytes at a time are in use.    *)
Garbage(b) == h.alive /\ up' = up + b /\ UNCHANGED <<h, grp, low, ctr, al, first, last>>
GarbageEnd(b, kb) == h.alive /\ up' = up - b /\ al' = Allocated(0, kb) /\ UNCHANGED <<h, grp, low, ctr, first, last>>

(* The size the policy wants for this much live data (KB).  The semispace   *)
(* collector takes two collections to grow, one per half.                   *)
Base(live) == IF h.c = "semi" THEN Min(live, last.live) ELSE live
SizeOK(live) ==
  CASE h.pol = "fixed" -> h.hs = first
    [] h.pol = "growable" ->
         /\ h.hs >= (Base(live) \div 100) * h.mult - 8
    [] h.pol = "adaptive" -> 
         /\ h.c # "semi" \/ last.live > 0 => h.hs >= Max(Base(live) + (Base(live) \div 100) * 10, Base(live) + 4096) - 128
         /\ \/ h.hs = first
            \/ h.hs <= Max(5 * live, live + 4096) + 128
    [] OTHER -> FALSE

(* A collection of kind k has kept live KB, as the sizer was told.         *)
Collect(k, live) ==
  /\ h.alive
  /\ h.c \in Exact => live >= low \div 1024 - 4
  /\ h.c \in Exact /\ k = 3 => live <= ((up \div 1024) \div 10) * 13 + 1024
  /\ h.c \in Exact => SizeOK(live)
  \* A collector that learns by sweeping knows the live data of the collection
  \* before, and gives the policy no less.  (An adaptive heap may have shrunk
  \* in between, and the live data is told as a part of the heap.)
  \* It leaves out the one block that each mutator and each tracer fills.
  /\ h.c \in Delayed /\ h.pol # "adaptive" => live >= Min(last.low \div 1024, h.hs) - 64 * (9 + h.th)
  /\ h.c \in Delayed /\ h.pol # "adaptive" => SizeOK(live)
  /\ last' = [live |-> live, low |-> low]
  /\ al' = [al EXCEPT !.gc = al.kb]
  /\ UNCHANGED <<h, grp, low, up, ctr, first>>

(* A fixed size stays; growable heaps only grow.                           *)
Resize(hs) == /\ h.alive
              /\ h.pol # "fixed"
              /\ h.pol = "growable" => hs >= h.hs
              /\ h' = [h EXCEPT !.hs = hs]
              /\ UNCHANGED <<grp, low, up, ctr, al, first, last>>

(* The allocation counter is read: it never goes backwards, and counts all  *)
(* that was allocated before, except for what each thread's allocation      *)
(* buffer has not accounted for yet (and, in the semispace collector, what  *)
(* has been allocated since the last collection).                           *)
CounterBegin == h.alive /\ al' = [al EXCEPT !.must = IF h.c = "semi" THEN al.gc ELSE al.kb]
                /\ UNCHANGED <<h, grp, low, up, ctr, first, last>>
Counter(kb) == h.alive /\ kb >= ctr /\ kb >= al.must - 160 - 96 * h.th
               /\ ctr' = kb /\ UNCHANGED <<h, grp, low, up, al, first, last>>

(* Only a fixed-size heap may run out of space, and only if it is full.     *)
OutOfSpace ==
              /\ h.alive /\ h.pol = "fixed"
              /\ (up \div 1024) >= (h.hs \div 100) * Enough
              /\ h' = [h EXCEPT !.alive = FALSE]
              /\ UNCHANGED <<grp, low, up, ctr, al, first, last>>

Finish == h.alive /\ h' = [h EXCEPT !.alive = FALSE] /\ UNCHANGED <<grp, low, up, ctr, al, first, last>>

Sane == low >= 0 /\ up >= 0 /\ low <= up /\ ctr >= 0
=============================================================================
