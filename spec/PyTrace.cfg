INIT Init
NEXT Next
CONSTANTS
  Start <- PStart
  Step <- PStep
INVARIANT Conforms
CHECK_DEADLOCK FALSE
