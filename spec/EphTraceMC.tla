----------------------------- MODULE EphTraceMC -----------------------------
EXTENDS EphTrace
Objs == 1..4
Ephs == 5..6
\* Every graph in which objects have edges out of a small choice, and two
\* ephemerons with any keys and values, so that they nest, chain and cycle.
\* In the second, an ephemeron and its key are found at the same time, by way
\* of the value of another that is resolved late.
Succs == {<<{5, 6}, {}, {}, {}>>, <<{5, 2}, {}, {6, 4}, {}>>, <<{2, 5, 6}, {3}, {}, {}>>}
Some == [succ : Succs, key : [Ephs -> {2, 4}], val : [Ephs -> {3, 6}], roots : {{1}}]
All == [succ : Succs \cup {<<{5, 2}, {6}, {3}, {4}>>, <<{6}, {5}, {2, 4}, {}>>},
        key : [Ephs -> {1, 2, 4, 5, 6}], val : [Ephs -> {0, 2, 3, 6}], roots : {{1}}]
=============================================================================
