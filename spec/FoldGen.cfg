CONSTANTS
  P = 13
  Every = 7
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
