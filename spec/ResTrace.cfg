INIT Init
NEXT Next
CONSTANTS
  Start <- RStart
  Step <- RStep
INVARIANT Conforms
CHECK_DEADLOCK FALSE
