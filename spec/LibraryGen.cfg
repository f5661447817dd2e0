CONSTANTS Obj = {1, 2, 3, 4}
Con = {1, 2, 3}
Steps = 30
INIT Init
NEXT Next
INVARIANT Emit
CHECK_DEADLOCK FALSE
