-------------------------------- MODULE Deque --------------------------------
(***************************************************************************)
(* The work-stealing deque of shared-worklist.h at the level of single     *)
(* memory accesses, sequentially consistent or with x86's store buffers    *)
(* (TSO): an owner that pushes one or several and pops, thieves that steal *)
(* and ask for the size.  Refines Worklist.tla's contract: every value     *)
(* that was pushed is obtained once, and "empty" is answered only if the   *)
(* list was empty at some time during the call.                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS
  Thieves,
  MaxOps,      \* operations of the owner
  MaxSteals,   \* operations of each thief
  MinSize,     \* size of the first buffer
  Many,        \* how many values push_many pushes
  TSO,         \* are the owner's stores buffered?
  Fence        \* is there a full fence in try_pop?
VARIABLES
  mem,     \* [top, bottom, active, buf] with buf: number -> slot -> value
  sb,      \* the owner's store buffer: sequence of <<"bottom", x>>, <<"active", x>>, <<"buf", n, slot, x>>
  opc, o,  \* the owner: program counter and locals
  tpc, th, \* thieves
  nxt,     \* next value to push
  pushed, got, \* values pushed (visible to the owner); sequence of values obtained
  low      \* thief or owner -> was the list empty at some time since its call began?
vars == <<mem, sb, opc, o, tpc, th, nxt, pushed, got, low>>
Owner == "owner"
Size(n) == MinSize * (CASE n = 0 -> 1 [] n = 1 -> 2 [] n = 2 -> 4 [] OTHER -> 8)
Bufs == 0..3
Init ==
  /\ mem = [top |-> 0, bottom |-> 0, active |-> 0, buf |-> [n \in Bufs |-> [s \in 0..(Size(n) - 1) |-> 0]]]
  /\ sb = << >> /\ opc = "idle" /\ o = [b |-> 0, t |-> 0, a |-> 0, k |-> 0, x |-> 0, n |-> 0, ops |-> 0]
  /\ tpc = [i \in Thieves |-> "idle"] /\ th = [i \in Thieves |-> [t |-> 0, b |-> 0, a |-> 0, x |-> 0, ops |-> 0]]
  /\ nxt = 1 /\ pushed = {} /\ got = << >> /\ low = [i \in Thieves \cup {Owner} |-> FALSE]

Apply(m, s) == CASE s[1] = "bottom" -> [m EXCEPT !.bottom = s[2]]
                 [] s[1] = "active" -> [m EXCEPT !.active = s[2]]
                 [] OTHER -> [m EXCEPT !.buf[s[2]][s[3]] = s[4]]
RECURSIVE View(_, _)
View(m, q) == IF q = << >> THEN m ELSE View(Apply(m, Head(q)), Tail(q))
Mine == View(mem, sb)  \* memory as the owner sees it
Store(s) == IF TSO THEN sb' = Append(sb, s) /\ UNCHANGED mem
            ELSE mem' = Apply(mem, s) /\ UNCHANGED sb
Flush == sb # << >> /\ mem' = Apply(mem, Head(sb)) /\ sb' = Tail(sb)
         /\ UNCHANGED <<opc, o, tpc, th, nxt, pushed, got, low>>
Drained == ~TSO \/ sb = << >>

\* The abstract list is empty when all that has been pushed has been obtained.
Obtained == {got[j] : j \in DOMAIN got}
Empty(p, q) == p \subseteq {q[j] : j \in DOMAIN q}
Look(p, q) == [i \in DOMAIN low |-> low[i] \/ Empty(p, q)]
Same == UNCHANGED <<nxt, pushed, got, low>>
OUn == UNCHANGED <<tpc, th>>

\* push_many(n)
PushBegin ==
  /\ opc = "idle" /\ o.ops < MaxOps
  /\ \E n \in {1, Many} :
       o' = [o EXCEPT !.b = Mine.bottom, !.t = Mine.top, !.a = Mine.active, !.n = n, !.k = 0, !.ops = @ + 1]
  /\ opc' = "grow?" /\ UNCHANGED <<mem, sb>> /\ OUn /\ Same
PushGrow ==
  /\ opc = "grow?"
  /\ IF o.b - o.t > Size(o.a) - o.n THEN opc' = "copy" /\ o' = [o EXCEPT !.k = o.t]
     ELSE opc' = "put" /\ o' = [o EXCEPT !.k = 0]
  /\ UNCHANGED <<mem, sb>> /\ OUn /\ Same
PushCopy ==
  /\ opc = "copy"
  /\ IF o.k < o.b
     THEN /\ Store(<<"buf", o.a + 1, o.k % Size(o.a + 1), Mine.buf[o.a][o.k % Size(o.a)]>>)
          /\ o' = [o EXCEPT !.k = @ + 1] /\ UNCHANGED opc
     ELSE Store(<<"active", o.a + 1>>) /\ o' = [o EXCEPT !.a = @ + 1] /\ opc' = "grow?"
  /\ OUn /\ Same
PushPut ==
  /\ opc = "put"
  /\ IF o.k < o.n
     THEN /\ Store(<<"buf", o.a, (o.b + o.k) % Size(o.a), nxt + o.k>>)
          /\ o' = [o EXCEPT !.k = @ + 1] /\ UNCHANGED <<opc, nxt, pushed>>
     ELSE /\ Store(<<"bottom", o.b + o.n>>) /\ opc' = "idle" /\ UNCHANGED o
          /\ pushed' = pushed \cup (nxt..(nxt + o.n - 1)) /\ nxt' = nxt + o.n
  /\ OUn /\ UNCHANGED <<got, low>>
\* try_pop
PopBegin ==
  /\ opc = "idle" /\ o.ops < MaxOps
  /\ o' = [o EXCEPT !.b = Mine.bottom, !.a = Mine.active, !.ops = @ + 1]
  /\ low' = [low EXCEPT ![Owner] = Empty(pushed, got)]
  /\ opc' = "pop1" /\ UNCHANGED <<mem, sb, nxt, pushed, got>> /\ OUn
Pop1 == opc = "pop1" /\ Store(<<"bottom", o.b - 1>>) /\ opc' = "pop2" /\ UNCHANGED o /\ OUn /\ Same
Pop2 == \* fence; load top
  /\ opc = "pop2" /\ (Fence => Drained)
  /\ o' = [o EXCEPT !.t = mem.top] /\ opc' = "pop3" /\ UNCHANGED <<mem, sb>> /\ OUn /\ Same
Pop3 ==
  /\ opc = "pop3"
  /\ IF o.b - o.t > 0
     THEN LET x == Mine.buf[o.a][(o.b - 1) % Size(o.a)] IN
          /\ o' = [o EXCEPT !.x = x]
          /\ IF o.b - o.t = 1 THEN opc' = "popcas" /\ UNCHANGED <<got, low>>
             ELSE opc' = "idle" /\ got' = Append(got, x) /\ low' = Look(pushed, got')
          /\ UNCHANGED <<mem, sb>>
     ELSE Store(<<"bottom", o.b>>) /\ opc' = "popempty" /\ UNCHANGED <<o, got, low>>
  /\ OUn /\ UNCHANGED <<nxt, pushed>>
PopCas == \* a locked instruction: drains the store buffer
  /\ opc = "popcas" /\ Drained
  /\ IF mem.top = o.t
     THEN mem' = [mem EXCEPT !.top = o.t + 1] /\ got' = Append(got, o.x) /\ low' = Look(pushed, got') /\ opc' = "poplast"
     ELSE opc' = "poplost" /\ UNCHANGED <<mem, got, low>>
  /\ UNCHANGED <<sb, o, nxt, pushed>> /\ OUn
PopLast == opc \in {"poplast", "poplost"} /\ Store(<<"bottom", o.b>>)
           /\ opc' = (IF opc = "poplast" THEN "idle" ELSE "popempty") /\ UNCHANGED o /\ OUn /\ Same
PopEmpty == opc = "popempty" /\ opc' = "idle" /\ UNCHANGED <<mem, sb, o>> /\ OUn /\ Same

\* steal
SUn == UNCHANGED <<sb, opc, o>>
S1(i) == /\ tpc[i] = "idle" /\ th[i].ops < MaxSteals
         /\ th' = [th EXCEPT ![i].ops = @ + 1] /\ tpc' = [tpc EXCEPT ![i] = "top"]
         /\ low' = [low EXCEPT ![i] = Empty(pushed, got)] /\ UNCHANGED <<mem, nxt, pushed, got>> /\ SUn
S2(i) == tpc[i] = "top" /\ th' = [th EXCEPT ![i].t = mem.top] /\ tpc' = [tpc EXCEPT ![i] = "bot"]
         /\ UNCHANGED mem /\ Same /\ SUn
S3(i) == tpc[i] = "bot" /\ th' = [th EXCEPT ![i].b = mem.bottom]
         /\ tpc' = [tpc EXCEPT ![i] = IF mem.bottom - th[i].t <= 0 THEN "empty" ELSE "active"]
         /\ UNCHANGED mem /\ Same /\ SUn
S4(i) == tpc[i] = "active" /\ th' = [th EXCEPT ![i].a = mem.active] /\ tpc' = [tpc EXCEPT ![i] = "get"]
         /\ UNCHANGED mem /\ Same /\ SUn
S5(i) == tpc[i] = "get" /\ th' = [th EXCEPT ![i].x = mem.buf[th[i].a][th[i].t % Size(th[i].a)]]
         /\ tpc' = [tpc EXCEPT ![i] = "cas"] /\ UNCHANGED mem /\ Same /\ SUn
S6(i) == /\ tpc[i] = "cas"
         /\ IF mem.top = th[i].t
            THEN mem' = [mem EXCEPT !.top = th[i].t + 1] /\ got' = Append(got, th[i].x) /\ low' = Look(pushed, got')
                 /\ tpc' = [tpc EXCEPT ![i] = "idle"]
            ELSE tpc' = [tpc EXCEPT ![i] = "top"] /\ UNCHANGED <<mem, got, low>>
         /\ UNCHANGED <<th, nxt, pushed>> /\ SUn
S7(i) == tpc[i] = "empty" /\ tpc' = [tpc EXCEPT ![i] = "idle"] /\ UNCHANGED <<th, mem>> /\ Same /\ SUn

Next == Flush \/ PushBegin \/ PushGrow \/ PushCopy \/ PushPut \/ PopBegin \/ Pop1 \/ Pop2 \/ Pop3 \/ PopCas \/ PopLast
        \/ PopEmpty \/ \E i \in Thieves : S1(i) \/ S2(i) \/ S3(i) \/ S4(i) \/ S5(i) \/ S6(i) \/ S7(i)
Spec == Init /\ [][Next]_vars
Sym == Permutations(Thieves)
---------------------------------------------------------------------------
\* Nothing twice, nothing that was not pushed.
Exact == /\ Cardinality(Obtained) = Len(got) /\ Obtained \subseteq 1..(nxt + Many)
         /\ 0 \notin Obtained
\* "Empty" is said only with reason.  For a thief under TSO a push takes effect
\* when it reaches memory.
EmptyOK == /\ opc = "popempty" => low[Owner] \/ Empty(pushed, got)
           /\ ~TSO => \A i \in Thieves : tpc[i] = "empty" =>
                low[i] \/ Empty(pushed, got) \/ opc \in {"pop2", "pop3", "popcas", "popempty", "poplast", "poplost"} \/ th[i].b < o.b
\* At rest, all that is left is in the list.
Left == (opc = "idle" /\ sb = << >> /\ \A i \in Thieves : tpc[i] = "idle") =>
          /\ mem.bottom - mem.top = Cardinality(pushed \ Obtained)
          /\ pushed \ Obtained = {mem.buf[mem.active][s % Size(mem.active)] : s \in mem.top..(mem.bottom - 1)}
=============================================================================
