INIT Init
NEXT Next
CONSTANTS
  Start <- AStart
  Step <- AStep
INVARIANT Conforms
CHECK_DEADLOCK FALSE
