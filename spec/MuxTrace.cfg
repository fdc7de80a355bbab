INIT Init
NEXT Next
CONSTANTS
  Start <- MStart
  Step <- MStep
INVARIANT Conforms
CHECK_DEADLOCK FALSE
