SPECIFICATION Spec
CONSTANT Cells = {1, 2, 3}
INVARIANT Nothing
INVARIANT Clean
INVARIANT Key
CHECK_DEADLOCK FALSE
