SPECIFICATION Spec
CONSTANTS
  T = {t1, t2, t3}
  E = {e1, e2, e3, e4}
  MarkFirst = TRUE
  Recheck = TRUE
  Abort = TRUE
SYMMETRY Sym
INVARIANTS OneCopy NotBoth TracedOnce Final
CHECK_DEADLOCK FALSE
