CONSTANTS
  Vec = {1, 2}
  Mv = {1, 2, 3}
  Reg = {1, 2}
  Con = {1, 2, 3, 4}
  Steps = 30
INIT Init
NEXT Next
INVARIANT Emit
CHECK_DEADLOCK FALSE
