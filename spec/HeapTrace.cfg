SPECIFICATION TraceSpec
INVARIANTS TypeOK NoDangling
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
