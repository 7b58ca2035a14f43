------------------------------- MODULE Stats -------------------------------
(* Event listeners that whippet comes with: the chain that passes every event *)
(* to two listeners, the basic statistics, and the histogram of pause times.  *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

\* ---------------------------------------------------------- histograms
\* Values below 2^p are told apart; above, there are 2^p steps from each power
\* of two to the next. Values of 2^(bits+p-1) and more are out of range.
RECURSIVE Log2(_)
Log2(v) == IF v < 2 THEN 0 ELSE 1 + Log2(v \div 2)
Width(v, p) == IF v < 2^p THEN 1 ELSE 2^(Log2(v) - p)
Lower(v, p) == (v \div Width(v, p)) * Width(v, p)
Upper(v, p) == Lower(v, p) + Width(v, p)
Over(v, bits, p) == v >= 2^(bits + p - 1)
BucketLow(i, p) == IF i < 2^p THEN i ELSE (2^p + (i % (2^p))) * 2^(i \div 2^p - 1)

\* H is the sequence of values recorded.
At(H, n) == {v \in {H[i] : i \in DOMAIN H} :
              /\ Cardinality({i \in DOMAIN H : H[i] < v}) < n
              /\ n <= Cardinality({i \in DOMAIN H : H[i] <= v})}
Nth(H, n) == CHOOSE v \in At(H, n) : TRUE
Least(H) == CHOOSE v \in {H[i] : i \in DOMAIN H} : \A i \in DOMAIN H : v <= H[i]
Most(H) == CHOOSE v \in {H[i] : i \in DOMAIN H} : \A i \in DOMAIN H : v >= H[i]
Bound(v, bits, p) == IF Over(v, bits, p) THEN -1 ELSE Upper(v, p)
Min(H, bits, p) == IF H = << >> THEN -1 ELSE IF Over(Least(H), bits, p) THEN 2^(bits + p - 1) ELSE Lower(Least(H), p)
Max(H, bits, p) == IF H = << >> THEN 0 ELSE Bound(Most(H), bits, p)
Rank(c, k) == IF (c * k) \div 1000 = 0 THEN 1 ELSE (c * k) \div 1000
\* The ranks that k thousandths of c may be, as a product of doubles.
Ranks(c, k) == {Rank(c, k)} \cup (IF (c * k) % 1000 = 0 /\ c * k > 1000 THEN {Rank(c, k) - 1} ELSE {})
Percentiles(H, k, bits, p) == IF H = << >> THEN {0} ELSE {Bound(Nth(H, n), bits, p) : n \in Ranks(Len(H), k)}
InBucket(H, i, bits, p) ==
  Cardinality({x \in DOMAIN H : IF i = bits * 2^p THEN Over(H[x], bits, p)
                                ELSE ~Over(H[x], bits, p) /\ BucketLow(i, p) <= H[x] /\ H[x] < BucketLow(i + 1, p)})

\* ------------------------------------------------------ basic statistics
VARIABLES st,      \* the statistics
          hist,    \* three histograms of different parameters
          muts     \* the mutators there are
svars == <<st, hist, muts>>
Bits == <<25, 8, 12>>
Prec == <<4, 2, 0>>
St0(hs, T, C) == [maj |-> 0, min |-> 0, T |-> T, C |-> C, mT |-> 0, cT |-> 0, mC |-> 0, cC |-> 0,
                  hs |-> hs, mhs |-> hs, live |-> 0, mlive |-> 0, p |-> << >>]
Bigger(a, b) == IF a > b THEN a ELSE b
\* The mutator ran until now.
Stop(s, T, C) == [s EXCEPT !.T = T, !.C = C, !.mT = @ + T - s.T, !.mC = @ + C - s.C]
\* The collector ran until now.
Restart(s, T, C) == [s EXCEPT !.T = T, !.C = C, !.cT = @ + T - s.T, !.cC = @ + C - s.C, !.p = Append(@, T - s.T)]
Prepare(s, minor) == IF minor THEN [s EXCEPT !.min = @ + 1] ELSE [s EXCEPT !.maj = @ + 1]
Resized(s, n) == [s EXCEPT !.hs = n, !.mhs = Bigger(@, n)]
Live(s, n) == [s EXCEPT !.live = n, !.mlive = Bigger(@, n)]
Fields(s) == <<s.maj, s.min, s.mT, s.cT, s.mC, s.cC, s.hs, s.mhs, s.live, s.mlive>>
=============================================================================
