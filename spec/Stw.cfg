SPECIFICATION Spec
CONSTANTS
  T = {t1, t2, t3}
  MaxGC = 2
  Kinds = {1, 2}
  Spurious = TRUE
SYMMETRY Sym
INVARIANTS WorldStopped OneCollector Counts Honoured
CHECK_DEADLOCK FALSE
