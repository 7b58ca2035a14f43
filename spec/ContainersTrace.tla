-------------------------- MODULE ContainersTrace ---------------------------
EXTENDS Containers, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l
vars == <<cvars, l>>
Rec == Trace[l]
Is(o) == l <= Len(Trace) /\ Rec.o = o /\ l' = l + 1
Holds(p) == IF p THEN TRUE ELSE FALSE
Same == UNCHANGED cvars
Range(q) == {q[i] : i \in DOMAIN q}
Bool(b) == IF b THEN 1 ELSE 0

Next ==
  \/ Is("reset") /\ m' = EmptyFn /\ s' = <<{}, {}>> /\ t' = EmptyFn /\ e' = {}
  \/ Is("hash") /\ Rec.ok = 1 /\ Same
  \/ Is("madd") /\ MAdd(Rec.k, Rec.v)
  \/ Is("mrem") /\ MRem(Rec.k)
  \/ Is("mclear") /\ MClear
  \/ Is("mhas") /\ Rec.r = Bool(MHas(Rec.k)) /\ Same
  \/ Is("mget") /\ Rec.r = MGet(Rec.k, 5000) /\ Same
  \/ Is("meach") /\ Same /\ Len(Rec.kv) = Cardinality(DOMAIN m)
       /\ Range(Rec.kv) = {<<k, m[k]>> : k \in DOMAIN m}
  \/ Is("sadd") /\ SAdd(Rec.i, Rec.k)
  \/ Is("srem") /\ SRem(Rec.i, Rec.k)
  \/ Is("sclear") /\ SClear(Rec.i)
  \/ Is("sunion") /\ SUnion(Rec.i, Rec.j)
  \/ Is("shas") /\ Rec.r = Bool(Rec.k \in s[Rec.i]) /\ Same
  \/ Is("seach") /\ Same /\ Len(Rec.ks) = Cardinality(s[Rec.i]) /\ Range(Rec.ks) = s[Rec.i]
  \* Find visits members until its function is satisfied.
  \/ Is("sfind") /\ Same
       /\ LET n == Cardinality(s[Rec.i]) IN
          /\ Rec.left = IF n >= Rec.n THEN 0 ELSE Rec.n - n
          /\ Holds(n > 0 => Rec.last \in s[Rec.i])
  \/ Is("tins") /\ TIns(Rec.lo, Rec.n, Rec.v)
  \/ Is("trem") /\ TGet(Rec.k)[3] = Rec.v /\ TRem(Rec.k)
  \/ Is("tget") /\ Rec.r = TGet(Rec.k) /\ Same
  \/ Is("thas") /\ Rec.r = Bool(Owners(Rec.k) # {}) /\ Same
  \/ Is("tprev") /\ Rec.r = TPrev(Rec.k) /\ Same
  \/ Is("eadj") /\ EAdj(Rec.lo, Rec.n)
  \/ Is("ehas") /\ Rec.r = Bool(EHas(Rec.c)) /\ Same
  \/ Is("end") /\ Same

Spec == CInit /\ l = 1 /\ [][Next]_vars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
