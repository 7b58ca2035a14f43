------------------------------ MODULE Options ------------------------------
(* What a collector's options are after any sequence of settings, from        *)
(* values and from strings. Strings are sequences of character codes. Numbers *)
(* are sequences of NL limbs, base 10^4, least significant first: sizes go    *)
(* up to 2^63. Doubles are in thousandths.                                    *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

NL == 8
B == 10000
RECURSIVE MA(_, _, _, _)
MA(b, m, c, i) == IF i > NL THEN << >>
                  ELSE LET x == b[i] * m + c IN <<x % B>> \o MA(b, m, x \div B, i + 1)
\* b * m + c, for m and c below 10^5. (Callers keep numbers below 10^32.)
MulAdd(b, m, c) == MA(b, m, c, 1)
RECURSIVE Cmp(_, _, _)
Cmp(a, b, i) == IF i = 0 THEN 0 ELSE IF a[i] # b[i] THEN (IF a[i] < b[i] THEN -1 ELSE 1) ELSE Cmp(a, b, i - 1)
Le(a, b) == Cmp(a, b, NL) <= 0
Zero == <<0, 0, 0, 0, 0, 0, 0, 0>>
Nat8(n) == MulAdd(Zero, 1, n)
\* 2^63 - 2, the largest size that a string is sure to stand for, and 2^31 - 1.
MaxSize == <<5806, 5477, 368, 3372, 922, 0, 0, 0>>
MaxInt == <<3647, 4748, 21, 0, 0, 0, 0, 0>>

Names == [o \in 0..5 |->
  CASE o = 0 -> <<104,101,97,112,45,115,105,122,101,45,112,111,108,105,99,121>>                     \* heap-size-policy
    [] o = 1 -> <<104,101,97,112,45,115,105,122,101>>                                               \* heap-size
    [] o = 2 -> <<109,97,120,105,109,117,109,45,104,101,97,112,45,115,105,122,101>>                 \* maximum-heap-size
    [] o = 3 -> <<104,101,97,112,45,115,105,122,101,45,109,117,108,116,105,112,108,105,101,114>>    \* heap-size-multiplier
    [] o = 4 -> <<104,101,97,112,45,101,120,112,97,110,115,105,118,101,110,101,115,115>>            \* heap-expansiveness
    [] OTHER -> <<112,97,114,97,108,108,101,108,105,115,109>>]                                      \* parallelism
Kind(o) == CASE o \in {0, 5} -> "int" [] o \in {1, 2} -> "size" [] o \in {3, 4} -> "double" [] OTHER -> "none"
Fixed == <<102,105,120,101,100>>
Growable == <<103,114,111,119,97,98,108,101>>
Adaptive == <<97,100,97,112,116,105,118,101>>
Lo(o) == CASE o = 3 -> Nat8(1000) [] o = 5 -> Nat8(1) [] OTHER -> Zero
Hi(o) == CASE o = 0 -> Nat8(2) [] o = 5 -> Nat8(64) [] o = 3 -> Nat8(1000000000) [] o = 4 -> Nat8(50000) [] OTHER -> MaxSize
OptionOf(s) == IF \E o \in 0..5 : Names[o] = s THEN CHOOSE o \in 0..5 : Names[o] = s ELSE -1

\* ------------------------------------------------------------- numbers
Digit(c) == IF c >= 48 /\ c <= 57 THEN c - 48 ELSE IF c >= 97 /\ c <= 122 THEN c - 87
            ELSE IF c >= 65 /\ c <= 90 THEN c - 55 ELSE 99
At(s, i) == IF i <= Len(s) THEN s[i] ELSE 0
\* The value of the digits from i on, and where they end.
RECURSIVE Digits(_, _, _, _)
Digits(s, i, base, acc) == IF Digit(At(s, i)) < base THEN Digits(s, i + 1, base, MulAdd(acc, base, Digit(At(s, i))))
                           ELSE [v |-> acc, e |-> i]
Sign(s) == At(s, 1) \in {43, 45}
\* An integer as strtol reads it: decimal, or octal after 0, or hexadecimal after 0x.
Integer(s) == LET i == IF Sign(s) THEN 2 ELSE 1
              hex == At(s, i) = 48 /\ At(s, i + 1) \in {120, 88} /\ Digit(At(s, i + 2)) < 16
              base == IF hex THEN 16 ELSE IF At(s, i) = 48 THEN 8 ELSE 10
              st == IF hex THEN i + 2 ELSE i
              d == Digits(s, st, base, Zero)
          IN [ok |-> d.e > st, neg |-> At(s, 1) = 45 /\ d.v # Zero, v |-> d.v, e |-> d.e]
Refused == [ok |-> FALSE, v |-> Zero]
Val(v) == [ok |-> TRUE, v |-> v]
ParseInt(s) == LET n == Integer(s) IN IF n.ok /\ ~n.neg /\ n.e = Len(s) + 1 /\ Le(n.v, MaxInt) THEN Val(n.v) ELSE Refused
Scale(c) == CASE c \in {107, 75} -> 1 [] c \in {109, 77} -> 2 [] c \in {103, 71} -> 3 [] c \in {116, 84} -> 4 [] OTHER -> 0
RECURSIVE Times1024(_, _)
Times1024(v, k) == IF k = 0 THEN v ELSE Times1024(MulAdd(v, 1024, 0), k - 1)
ParseSize(s) == LET n == Integer(s) k == Scale(At(s, n.e))
                    v == Times1024(n.v, k)
                IN IF n.ok /\ ~n.neg /\ n.e + (IF k > 0 THEN 1 ELSE 0) = Len(s) + 1 /\ Le(v, MaxSize) THEN Val(v) ELSE Refused
\* Decimals with up to three places and an exponent, in thousandths.
RECURSIVE Times10(_, _)
Times10(v, k) == IF k = 0 THEN v ELSE Times10(MulAdd(v, 10, 0), k - 1)
ParseDouble(s) ==
  LET i == IF Sign(s) THEN 2 ELSE 1
      a == Digits(s, i, 10, Zero)
      dot == At(s, a.e) = 46
      b == IF dot THEN Digits(s, a.e + 1, 10, a.v) ELSE [v |-> a.v, e |-> a.e]
      places == IF dot THEN b.e - a.e - 1 ELSE 0
      some == (a.e - i) + places > 0
      ex == At(s, b.e) \in {101, 69}
      x == IF ex THEN Digits(s, b.e + 1, 10, Zero) ELSE [v |-> Zero, e |-> b.e]
      ok == some /\ (ex => x.e > b.e + 1) /\ x.e = Len(s) + 1
      v == Times10(b.v, 3 - places + x.v[1])
  IN IF ok /\ (At(s, 1) = 45 => v = Zero) THEN Val(v) ELSE Refused
ParsePolicy(s) == IF s = Fixed THEN Val(Zero) ELSE IF s = Growable THEN Val(Nat8(1)) ELSE IF s = Adaptive THEN Val(Nat8(2))
                  ELSE ParseInt(s)
Parse(o, s) == CASE o = 0 -> ParsePolicy(s) [] o = 5 -> ParseInt(s) [] Kind(o) = "size" -> ParseSize(s)
                 [] Kind(o) = "double" -> ParseDouble(s) [] OTHER -> Refused

\* --------------------------------------------------------------- state
VARIABLES opt     \* option -> value
InRange(o, v) == Le(Lo(o), v) /\ Le(v, Hi(o))
\* r is 1 if the setting is accepted; a refused setting changes nothing.
Setting(O, o, p) == IF o \in 0..5 /\ p.ok /\ InRange(o, p.v) THEN [r |-> 1, O |-> [O EXCEPT ![o] = p.v]] ELSE [r |-> 0, O |-> O]
Set(O, o, s) == Setting(O, o, Parse(o, s))

\* name=value,name=value...: set one after another until one is refused.
Lower(c) == c >= 97 /\ c <= 122
NameChar(c) == Lower(c) \/ c = 45
ValueChar(c) == Lower(c) \/ (c >= 48 /\ c <= 57) \/ c \in {45, 43, 46}
RECURSIVE Run(_, _, _)
Run(s, i, name) == IF i <= Len(s) /\ (IF name THEN NameChar(s[i]) ELSE ValueChar(s[i])) THEN Run(s, i + 1, name) ELSE i
RECURSIVE Many(_, _, _)
Many(O, s, i) ==
  LET e == Run(s, i, TRUE)
      o == OptionOf(SubSeq(s, i, e - 1))
      f == Run(s, e + 1, FALSE)
      n == Set(O, o, SubSeq(s, e + 1, f - 1))
  IN IF At(s, e) # 61 \/ o = -1 \/ (f <= Len(s) /\ s[f] # 44) THEN [r |-> 0, O |-> O]
     ELSE IF n.r = 0 THEN n
     ELSE IF f > Len(s) THEN n ELSE Many(n.O, s, f + 1)
SetMany(O, s) == IF s = << >> THEN [r |-> 1, O |-> O] ELSE Many(O, s, 1)

OptionsOK == \A o \in DOMAIN opt : InRange(o, opt[o])
=============================================================================
