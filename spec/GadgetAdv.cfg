CONSTANTS
  P = 13
  Part = 0
  Parts = 1
INIT Init
NEXT Next
INVARIANT Sound
CHECK_DEADLOCK FALSE
