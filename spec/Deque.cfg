SPECIFICATION Spec
CONSTANTS
  Thieves = {s1, s2}
  MaxOps = 4
  MaxSteals = 1
  MinSize = 2
  Many = 2
  TSO = FALSE
  Fence = TRUE
SYMMETRY Sym
INVARIANTS Exact EmptyOK Left
CHECK_DEADLOCK FALSE
