SPECIFICATION Spec
INVARIANTS Disjoint
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
