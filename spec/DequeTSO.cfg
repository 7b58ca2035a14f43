SPECIFICATION Spec
CONSTANTS
  Thieves = {s1, s2}
  MaxOps = 3
  MaxSteals = 1
  MinSize = 2
  Many = 2
  TSO = TRUE
  Fence = TRUE
SYMMETRY Sym
INVARIANTS Exact EmptyOK Left
CHECK_DEADLOCK FALSE
