SPECIFICATION Spec
CONSTANTS
  Vars = {"x", "y", "z"}
  Cells = {0, 1, 2, 3}
  Loose = FALSE
INVARIANT Agree
CHECK_DEADLOCK FALSE
