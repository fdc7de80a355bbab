INIT Init
NEXT Next
CONSTANTS
  Start <- CStart
  Step <- CStep
INVARIANT Conforms
CHECK_DEADLOCK FALSE
