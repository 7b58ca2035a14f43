SPECIFICATION Spec
CONSTANTS
  MaxObj = 2
  MaxEph = 1
  MaxFin = 1
  MaxOps = 4
  MaxGC = 2
  Gen = FALSE
  NPrio = 2
  Barrier = TRUE
INVARIANTS TypeOK NoDangling Exact CanEnd
CHECK_DEADLOCK FALSE
