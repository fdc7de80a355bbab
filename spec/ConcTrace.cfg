INIT Init
NEXT Next
CONSTANTS
  Start <- TStart
  Step <- TStep
INVARIANT Conforms
CHECK_DEADLOCK FALSE
