SPECIFICATION Spec
CONSTANT Most = 6
INVARIANT Clean
INVARIANT Owned
INVARIANT Truth
CHECK_DEADLOCK FALSE
