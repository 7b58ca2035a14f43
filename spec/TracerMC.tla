------------------------------ MODULE TracerMC ------------------------------
EXTENDS Tracer
O4 == 1..4
S4 == <<{2, 3}, {4}, {4}, {}>>
P2 == <<[ro |-> TRUE, roots |-> {2}], [ro |-> FALSE, roots |-> {1}]>>
O5 == 1..5
S5 == <<{2, 3}, {4}, {4, 1}, {}, {}>>
P3 == <<[ro |-> TRUE, roots |-> {2}], [ro |-> FALSE, roots |-> {1}], [ro |-> FALSE, roots |-> {5}]>>
=============================================================================
