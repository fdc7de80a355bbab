INIT Init
NEXT Next
CONSTANTS
  Q = 5
  N = 3
  K = 2
INVARIANTS Exact Joint
CHECK_DEADLOCK FALSE
