INIT Init
NEXT Next
INVARIANTS Intended Policy Fresh InOrder NotStuck
CHECK_DEADLOCK FALSE
