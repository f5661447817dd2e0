CONSTANTS
  Steps = 30
INIT Init
NEXT Next
INVARIANT Emit
CHECK_DEADLOCK FALSE
