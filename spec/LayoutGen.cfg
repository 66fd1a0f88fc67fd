SPECIFICATION Spec
INVARIANT Insensitive
CHECK_DEADLOCK FALSE
