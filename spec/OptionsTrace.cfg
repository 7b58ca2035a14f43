SPECIFICATION Spec
INVARIANTS Ranges
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
