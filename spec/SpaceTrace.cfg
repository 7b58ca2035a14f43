SPECIFICATION Spec
CONSTANTS
  Copying = {"semi", "pcc", "generational-pcc"}
  Exact = {"semi", "pcc", "generational-pcc"}
  Delayed = {"mmc", "parallel-mmc", "stack-conservative-mmc", "stack-conservative-parallel-mmc", "heap-conservative-mmc", "heap-conservative-parallel-mmc", "generational-mmc", "parallel-generational-mmc", "stack-conservative-generational-mmc", "stack-conservative-parallel-generational-mmc", "heap-conservative-generational-mmc", "heap-conservative-parallel-generational-mmc"}
INVARIANT Sane
CONSTRAINT Track
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
