SPECIFICATION Spec
CONSTANTS
  N = 3
  Obj <- O4
  Succ <- S4
  Phases <- P2
  Cap = 2
  Spurious = TRUE
CONSTRAINT Bound
INVARIANTS PhaseOver Complete Once Kept NoMore
CHECK_DEADLOCK FALSE
