SPECIFICATION Spec

POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
