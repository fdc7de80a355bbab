SPECIFICATION Spec
INVARIANT Separate
INVARIANT OneSwitch
CHECK_DEADLOCK FALSE
