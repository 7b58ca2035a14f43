SPECIFICATION Spec
INVARIANT Subset
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
