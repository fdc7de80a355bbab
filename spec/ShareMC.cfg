INIT Init
NEXT Next
CONSTANTS
  Q = 5
  MaxN = 3
INVARIANTS Sharing Recovers Client Holders Secrecy
CHECK_DEADLOCK FALSE
