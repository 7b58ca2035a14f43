SPECIFICATION Spec
CONSTANTS
  MaxObj = 2
  MaxEph = 1
  MaxFin = 0
  MaxOps = 5
  MaxGC = 2
  Gen = TRUE
  NPrio = 1
  Barrier = TRUE
INVARIANTS TypeOK NoDangling Exact CanEnd Remembered
CHECK_DEADLOCK FALSE
