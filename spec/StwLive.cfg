SPECIFICATION Spec
CONSTANTS
  T = {t1, t2}
  MaxGC = 2
  Kinds = {1, 2}
  Spurious = FALSE
PROPERTIES Stops Serves
CHECK_DEADLOCK FALSE
