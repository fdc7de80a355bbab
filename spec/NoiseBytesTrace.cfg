INIT Init
NEXT Next
CONSTANTS
  Start <- BStart
  Step <- BStep
INVARIANT Conforms
CHECK_DEADLOCK FALSE
