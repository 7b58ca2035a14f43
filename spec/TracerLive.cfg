SPECIFICATION Spec
CONSTANTS
  N = 2
  Obj <- O4
  Succ <- S4
  Phases <- P2
  Cap = 2
  Spurious = FALSE
CONSTRAINT Bound
CHECK_DEADLOCK FALSE
PROPERTY Ends
