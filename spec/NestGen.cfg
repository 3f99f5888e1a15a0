INIT Init
NEXT Next
CONSTANTS
  Turns = 4
  Gates = 2048
CHECK_DEADLOCK FALSE
