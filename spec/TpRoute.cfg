CONSTANTS
  Start <- DStart
  Step <- DStep
INIT Init
NEXT Next
INVARIANT Conforms
CHECK_DEADLOCK FALSE
