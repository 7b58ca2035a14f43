SPECIFICATION Spec
CONSTANTS
  N = 2
  Obj <- O5
  Succ <- S5
  Phases <- P3
  Cap = 2
  Spurious = TRUE
CONSTRAINT Bound
INVARIANTS PhaseOver Complete Once Kept NoMore
CHECK_DEADLOCK FALSE
