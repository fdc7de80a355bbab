INIT Init
NEXT Next
CONSTANTS
  Start <- NStart
  Step <- NStep
INVARIANT Conforms
CHECK_DEADLOCK FALSE
