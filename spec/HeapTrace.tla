----------------------------- MODULE HeapTrace ------------------------------
(* Checks recorded executions of the real collectors against Heap.tla.     *)
EXTENDS Heap, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l,      \* next line of the trace
          pend,   \* thread -> [k, seen, first]: collection request in progress, kinds seen
  pops,   \* attempts to pop a finalizer in progress
          mst,    \* mutators: id -> "run" | "stopped"
          ctr,    \* allocation counter last read, in KB
  totgc   \* KB allocated up to the last collection
vars == <<hvars, l, pend, pops, mst, ctr, totgc>>

NoPend == EmptyFn
Cfg(r) == [st |-> r.st, cr |-> r.cr, ct |-> r.ct, gen |-> r.gen, par |-> r.par,
           ns |-> r.ns, nk |-> r.nk, nc |-> r.nc, hs |-> r.hs, np |-> 3,
           fixed |-> r.fixed, ext |-> r.ext]

---------------------------------------------------------------------------
(* Which objects a collection traced. *)
Leafy(x) == obj[x].k = "leaf"

TraceOK(r, minor, B) ==
  LET R == Range(r.tr)
      T == TLCEval({e[1] : e \in R})
      strict == cfg.st # "mmc" \/ cfg.par = 0
      cons == cfg.cr = 1 \/ cfg.ct = 1
      known(e) == e[1] \in DOMAIN obj
      young(x) == IF minor THEN yy[x] ELSE nn[x]
      \* Objects of which too few nodes were traced.
      low == TLCEval({e[1] : e \in {e \in R : known(e) /\ e[2] < young(e[1])}})
      direct == IF cfg.st = "mmc" /\ cfg.cr = 1
                THEN {slots[i] : i \in 1..cfg.ns} ELSE {}
      fixed == TLCEval(Pos(pinned \cup direct))
  IN
  \* Everything in Must is traced, every node of it ...
  /\ \A x \in B.mustEnd : Leafy(x) \/ young(x) = 0 \/ (x \in T /\ x \notin low)
  \* ... and nothing outside May is, and no node twice.
  /\ ~cons => \A x \in T : x \in B.mayEnd /\ (cfg.st = "mmc" => ~Leafy(x))
  /\ strict => \A e \in R : known(e) /\ e[1] \notin refilled => e[2] <= nn[e[1]]
  /\ strict /\ ~minor /\ ~cons => \A e \in R : e[2] = nn[e[1]]
  \* At most one copy of a node is made.
  /\ \A e \in R : known(e) /\ e[1] \notin refilled => e[3] <= nn[e[1]]
  /\ \A e \in Range(r.fx) : known(e) =>
       /\ cons \/ minor \/ (Leafy(e[1]) /\ e[1] \in B.mayEnd)
       /\ e[1] \notin refilled => e[2] <= nn[e[1]]
  \* Pinned objects stay put, as do those that an ambiguous root refers to.
  /\ \A e \in R : e[1] \in fixed /\ known(e) /\ nn[e[1]] = 1 => e[3] = 0
  /\ \A e \in Range(r.fx) : e[1] \in fixed /\ known(e) /\ nn[e[1]] = 1 => e[2] = 0

(* The order of events around a collection. *)
HeapEvents ==
  CASE cfg.st = "mmc" -> <<2, 3, 4, 5, 31, 6, 7, 8, 9, 10>>
    [] cfg.st = "bdw" -> <<2, 3, 4, 5, 6, 7, 8, 31, 10>>
    [] OTHER -> <<2, 3, 4, 5, 6, 7, 8, 9, 31, 10>>
Mut(e) == e \div 100
Code(e) == e % 100
\* One step of the mutator event automaton; "bad" is a sink.
MutStep(s, e) ==
  LET m == Mut(e)  c == Code(e)
      cur == IF m \in DOMAIN s THEN s[m] ELSE "none"
      nxt == CASE c = 20 -> IF cur = "none" THEN "run" ELSE "bad"
               [] c = 21 -> IF cur = "run" THEN "cause" ELSE "bad"
               [] c = 22 -> IF cur = "run" THEN "stopping" ELSE "bad"
               [] c = 23 -> IF cur = "stopping" THEN "stopped" ELSE "bad"
               [] c = 24 -> IF cur = "stopped" THEN "run" ELSE "bad"
               [] c = 25 -> IF cur = "run" THEN "gone" ELSE "bad"
               [] OTHER -> "bad"
  IN (m :> nxt) @@ s

RECURSIVE MutFold(_, _, _)
MutFold(s, evs, i) == IF i > Len(evs) THEN s ELSE MutFold(MutStep(s, evs[i]), evs, i + 1)

EventsOK(r) ==
  LET hev == SelectSeq(r.ev, LAMBDA e : e < 100 /\ e # 30)
  IN
  /\ Len(r.ev) < 8000
  /\ hev = HeapEvents
  /\ cfg.st = "bdw" \/ \A i \in DOMAIN r.ev : r.ev[i] = 30 => i > 1 /\ r.ev[Len(r.ev)] = 10

\* Mutator events recorded before this collection's world stopped, and since.
MutOK(r) ==
  LET mev == SelectSeq(r.ev, LAMBDA e : e >= 100)
      s1 == MutFold(mst, mev, 1)
      causers == {m \in DOMAIN s1 : s1[m] = "cause"}
      \* Once mutators are stopped, none of them does anything until the end,
      \* but for announcing the arrival of another, which then waits.
      stop == CHOOSE i \in DOMAIN r.ev : r.ev[i] = 4
  IN
  /\ Holds(\A m \in DOMAIN s1 : s1[m] # "bad" /\ s1[m] # "stopping")
  /\ Holds(cfg.st # "semi" /\ cfg.st # "bdw" => Cardinality(causers) = 1)
  /\ Holds(\A i \in DOMAIN r.ev : i > stop => r.ev[i] < 100 \/ Code(r.ev[i]) = 20)
  /\ mst' = [m \in DOMAIN s1 |-> IF s1[m] = "cause" THEN "run" ELSE s1[m]]

---------------------------------------------------------------------------
(* Requested collections. *)
Can(k) == \* kinds of collection that satisfy a request for k
  CASE cfg.st = "semi" -> {"compacting"}
    [] cfg.st = "bdw" -> {"minor", "major", "compacting"}
    [] cfg.st = "pcc" -> CASE k = "any" -> {"minor", "compacting"}
                           [] k = "minor" -> {"minor", "compacting"}
                           [] OTHER -> {"compacting"}
    [] OTHER -> CASE k = "any" -> {"minor", "major", "compacting"}
                  [] k = "minor" -> {"minor", "major", "compacting"}
                  [] k = "major" -> {"major", "compacting"}
                  [] OTHER -> IF cfg.ct = 1 THEN {"major"} ELSE {"compacting"}
\* Of the kinds that exist in this configuration.
Kinds == {"major", "compacting"} \cup (IF cfg.gen = 1 \/ cfg.st = "bdw" THEN {"minor"} ELSE {})

---------------------------------------------------------------------------
Rec == Trace[l]
Is(o) == l <= Len(Trace) /\ Rec.o = o /\ l' = l + 1
Keep2 == UNCHANGED <<pend, mst, ctr, totgc>>
Keep3 == Keep2 /\ UNCHANGED pops

TReset == /\ Is("reset") /\ HeapReset(Cfg(Rec))
          /\ pend' = NoPend /\ pops' = 0 /\ mst' = EmptyFn /\ ctr' = 0 /\ totgc' = 0
TNew == Is("new") /\ New(Rec.s, Rec.id, Rec.k, Rec.nf, Rec.n, Rec.y) /\ Keep3
TGrow == Is("grow") /\ Grow(Rec.id, Rec.n, Rec.y) /\ Keep3
TRefill == Is("refill") /\ Refill(Rec.s, Rec.id, Rec.y) /\ Keep3
TSet == Is("set") /\ Set(Rec.s, Rec.id, Rec.f, Rec.v) /\ Keep3
TGet == Is("get") /\ Get(Rec.s, Rec.id, Rec.f, Rec.d, Rec.v) /\ Keep3
TMov == Is("mov") /\ Mov(Rec.s, Rec.d, Rec.v) /\ Keep3
TDrop == Is("drop") /\ Drop({Rec.s}) /\ Keep3
TStamp == Is("stamp") /\ slots[Rec.s] = Rec.id /\ UNCHANGED hvars /\ Keep3
TGarb == Is("garb") /\ UNCHANGED hvars /\ Keep3
TPin == Is("pin") /\ Pin(Rec.s, Rec.id) /\ Keep3
TEph == Is("eph") /\ Eph(Rec.s, Rec.id, Rec.key, Rec.val) /\ Keep3
TPush == Is("push") /\ Push(Rec.c, Rec.id) /\ Keep3
TEphGet == Is("ephget") /\ EphGet(Rec.s, Rec.id, Rec.dk, Rec.dv, Rec.key, Rec.val) /\ Keep3
TKill == Is("kill") /\ Kill(Rec.s, Rec.id) /\ Keep3
TChain == Is("chain") /\ ChainIter(Rec.c, Rec.ids, Rec.d, Rec.v) /\ Keep3
TFin == Is("fin") /\ Attach(Rec.id, Rec.obj, Rec.clo, Rec.p) /\ Keep3
TPopB == Is("popb") /\ pops' = pops + 1 /\ UNCHANGED hvars /\ Keep2
\* (Others that are popping may have taken what there was.)
TPop == Is("pop") /\ pops > 0 /\ pops' = pops - 1 /\ Keep2
        /\ IF Rec.id = 0 THEN PopNone(pops - 1)
           ELSE Pop(Rec.id, Rec.obj, Rec.clo, Rec.so, Rec.sc)
TTadd == Is("tadd") /\ UNCHANGED hvars /\ Keep3
TTrem == Is("trem") /\ Drop((Rec.t - 1) * cfg.nk + 1 .. Rec.t * cfg.nk) /\ Keep3

TColb == /\ Is("colb") /\ Rec.t \notin DOMAIN pend
         /\ pend' = pend @@ (Rec.t :> [k |-> Rec.k, seen |-> << >>, first |-> FALSE])
         /\ UNCHANGED <<hvars, mst, ctr, totgc, pops>>
\* A collection request returns once a collection of that kind, or one that
\* does at least as much, has happened since it was made.
TCole == /\ Is("cole") /\ Rec.t \in DOMAIN pend /\ pend[Rec.t].k = Rec.k
         /\ LET p == pend[Rec.t] IN Holds(
              \/ \E i \in DOMAIN p.seen : p.seen[i] \in Can(Rec.k)
              \* The first collection of a heap is always major (mmc).
              \/ cfg.st = "mmc" /\ p.first
              \* BDW only promises a little incremental work for a minor request.
              \/ cfg.st = "bdw" /\ Rec.k = "minor")
         /\ pend' = Restrict(pend, DOMAIN pend \ {Rec.t})
         /\ UNCHANGED <<hvars, mst, ctr, totgc, pops>>

TCtr == /\ Is("ctr")
        /\ Rec.v >= ctr
        \* It accounts at least for what was allocated up to the last collection.
        /\ Rec.v + 1 >= totgc
        \* Copying collectors count bump allocation (and whole pages for large
        \* objects), not the copies that collections make.
        /\ Holds(cfg.st \in {"pcc", "semi"} => 2 * Rec.v <= 3 * Rec.tot + 256 + 64 * ngc)
        /\ ctr' = Rec.v
        /\ UNCHANGED <<hvars, pend, mst, totgc, pops>>

TGC == /\ Is("gc")
       /\ LET minor == Rec.k = "minor"
              B == GCBounds(minor)
          IN /\ Rec.k \in Kinds
             /\ Holds(EventsOK(Rec)) /\ MutOK(Rec)
             /\ Rec.op = 0
             /\ Holds(cfg.ct = 1 \/ TraceOK(Rec, minor, B))
             /\ Rec.finc <= 1
             /\ Holds(cfg.st # "bdw" => Rec.xs = cfg.ext /\ Rec.xf = cfg.ext)
             /\ Holds(cfg.ext = 1 => Rec.xm = (IF minor THEN 1 ELSE 0))
             /\ Collected(minor, B, Rec.fin)
             /\ pend' = [t \in DOMAIN pend |-> [pend[t] EXCEPT !.seen = Append(@, Rec.k),
                                        !.first = @ \/ (ngc = 0 /\ Rec.k = "major")]]
       /\ totgc' = Rec.tot
       /\ UNCHANGED <<ctr, pops>>

\* Everything that can be reached, as the mutator sees it.
TWalk ==
  /\ Is("walk")
  /\ Rec.mv = 0
  /\ LET W == Range(Rec.g)
         ids == TLCEval({w[1] : w \in W})
         WE == {w \in W : w[1] \in DOMAIN ep}
         ekey == TLCEval([e \in {w[1] : w \in WE} |-> (CHOOSE w \in WE : w[1] = e)[2]])
         Nxt(x) == IF x \in DOMAIN ekey THEN Pos(Range(ekey[x])) ELSE Pos(Range(obj[x].f))
         RECURSIVE Go(_, _)
         Go(fr, seen) == IF fr = {} THEN seen
           ELSE LET s2 == seen \cup fr
                IN Go((UNION {Nxt(x) : x \in fr \cap ids}) \ s2, s2)
     IN /\ Len(Rec.g) = Cardinality(ids)
        /\ SlotRoots \subseteq ids
        /\ Holds(\A w \in W :
             LET x == w[1] IN
             /\ x \in DOMAIN obj
             /\ Pos(Range(w[2])) \subseteq ids
             /\ IF x \in DOMAIN ep THEN EphSees(x, w[2][1], w[2][2])
                ELSE w[2] = obj[x].f)
        /\ ids \subseteq Go(SlotRoots \cup (ChainMay \cap ids), {})
        /\ ep' = [e \in DOMAIN ep |-> IF e \in DOMAIN ekey THEN EphLearn(e, ekey[e][1]) ELSE ep[e]]
  /\ UNCHANGED <<cfg, obj, nn, yy, slots, chains, fins, npend, pinned, refilled, ngc>>
  /\ Keep3

TEnd == /\ Is("end") /\ Rec.ngc = ngc
        /\ Holds(cfg.fixed = 1 => Rec.hs = cfg.hs)
        /\ UNCHANGED hvars /\ Keep3

TraceInit ==
  /\ l = 1 /\ HeapInit([st |-> "mmc", cr |-> 0, ct |-> 0, gen |-> 0, par |-> 0, ns |-> 1,
                        nk |-> 1, nc |-> 1, hs |-> 0, np |-> 3, fixed |-> 0, ext |-> 0])
  /\ pend = NoPend /\ pops = 0 /\ mst = EmptyFn /\ ctr = 0 /\ totgc = 0

TraceNext ==
  \/ TReset \/ TNew \/ TGrow \/ TRefill \/ TSet \/ TGet \/ TMov \/ TDrop \/ TStamp
  \/ TGarb \/ TPin \/ TEph \/ TPush \/ TEphGet \/ TKill \/ TChain \/ TFin \/ TPopB \/ TPop
  \/ TTadd \/ TTrem \/ TColb \/ TCole \/ TCtr \/ TGC \/ TWalk \/ TEnd

TraceSpec == TraceInit /\ [][TraceNext]_vars

TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
