CONSTANTS MaxLen = 6
SPECIFICATION Spec
INVARIANT Agrees
CHECK_DEADLOCK FALSE
