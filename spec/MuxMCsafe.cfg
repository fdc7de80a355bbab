SPECIFICATION Spec
INVARIANT Admitted
INVARIANT Attributed

CHECK_DEADLOCK FALSE
