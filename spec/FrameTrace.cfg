INIT Init
NEXT Next
CONSTANTS
  Start <- FStart
  Step <- FStep
INVARIANT Conforms
CHECK_DEADLOCK FALSE
