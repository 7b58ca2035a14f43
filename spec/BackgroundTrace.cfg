SPECIFICATION Spec
INVARIANT Sorted
CONSTRAINT Track
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
