INIT Init
NEXT Next
CONSTANTS
  Q = 5
  N = 3
  K = 2
  Ordered = FALSE
INVARIANT Product
CHECK_DEADLOCK FALSE
