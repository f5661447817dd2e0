CONSTANTS
  Steps = 25
  MaxBits = 1500
INIT Init
NEXT Next
INVARIANT Emit
CHECK_DEADLOCK FALSE
