SPECIFICATION Spec
CONSTANTS
  T = {t1, t2}
  Obj <- Objs
  Eph <- Ephs
  Graphs <- All
  Recheck = TRUE
INVARIANTS Right Never
CHECK_DEADLOCK FALSE
