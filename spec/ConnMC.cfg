SPECIFICATION Spec
INVARIANT Private
INVARIANT Genuine
INVARIANT Unknown
CHECK_DEADLOCK FALSE
