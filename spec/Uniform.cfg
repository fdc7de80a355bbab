INIT Init
NEXT Next
CONSTANTS
  Start <- UStart
  Step <- UStep
INVARIANT Conforms
CHECK_DEADLOCK FALSE
