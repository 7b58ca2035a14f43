SPECIFICATION Spec
CONSTANTS
  T = {t1, t2}
  E = {e1, e2, e3, e4}
  MarkFirst = TRUE
  Recheck = TRUE
  Abort = TRUE
CHECK_DEADLOCK FALSE
PROPERTY Ends
