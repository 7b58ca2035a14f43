------------------------------ MODULE FieldSet ------------------------------
(* The remembered set: the set of fields that mutators (and, while tracing,  *)
(* collector threads) have logged.  A minor collection visits each exactly   *)
(* once and drops those found to be of no interest; a major one forgets all. *)
EXTENDS Naturals, FiniteSets, TLC
VARIABLES rem,    \* remembered fields
          todo,   \* those still to be visited or forgotten in this collection
          phase   \* "mutate", "minor", "major"
fvars == <<rem, todo, phase>>
FInit == rem = {} /\ todo = {} /\ phase = "mutate"
\* A field is logged once until it is dropped or forgotten: its log bit sees to that.
Log(e)      == phase \in {"mutate", "minor"} /\ e \notin rem /\ rem' = rem \cup {e} /\ UNCHANGED <<todo, phase>>
Minor       == phase = "mutate" /\ phase' = "minor" /\ todo' = rem /\ UNCHANGED rem
Visit(e, k) == phase = "minor" /\ e \in todo /\ todo' = todo \ {e}
               /\ rem' = (IF k = 1 THEN rem ELSE rem \ {e}) /\ UNCHANGED phase
EndMinor    == phase = "minor" /\ todo = {} /\ phase' = "mutate" /\ UNCHANGED <<rem, todo>>
Major       == phase = "mutate" /\ phase' = "major" /\ todo' = rem /\ UNCHANGED rem
Forget(e)   == phase = "major" /\ e \in todo /\ todo' = todo \ {e} /\ UNCHANGED <<rem, phase>>
\* told: the collector asked to be told of each field that is forgotten
EndMajor(told) == phase = "major" /\ (told = 1 => todo = {}) /\ rem' = {} /\ todo' = {} /\ phase' = "mutate"
Subset == todo \subseteq rem
=============================================================================
