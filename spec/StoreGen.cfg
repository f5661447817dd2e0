CONSTANTS
  Obj = {1, 2, 3}
  Img = {1, 2, 3}
  Con = {1, 2, 3}
  Flg = {0, 1, 7}
  Steps = 24
INIT Init
NEXT Next
INVARIANT Emit
CHECK_DEADLOCK FALSE
