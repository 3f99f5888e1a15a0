CONSTANTS
  P = 13
  Depth = 4
  Depth2 = 4
  Sample = 40
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
