INIT Init
NEXT Next
CONSTANTS
  Q = 5
  Clients = {1, 2, 3}
  Keys = {2, 3}
  Adversary = TRUE
INVARIANT Correct
VIEW View
CHECK_DEADLOCK FALSE
