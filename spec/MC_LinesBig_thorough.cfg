CONSTANTS MaxLen = 7
 MaxK = 5
SPECIFICATION Spec
INVARIANT Agrees
CHECK_DEADLOCK FALSE
