SPECIFICATION Spec
CONSTANTS
  T = {t1, t2}
  Obj <- Objs
  Eph <- Ephs
  Graphs <- Some
  Recheck = TRUE
INVARIANTS Right Never
PROPERTY Ends
CHECK_DEADLOCK FALSE
