SPECIFICATION Spec
INVARIANT Admitted
INVARIANT Attributed
PROPERTY Ends
CHECK_DEADLOCK FALSE
