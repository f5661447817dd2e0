CONSTANTS MaxLen = 5
 MaxK = 3
SPECIFICATION Spec
INVARIANT Agrees
CHECK_DEADLOCK FALSE
