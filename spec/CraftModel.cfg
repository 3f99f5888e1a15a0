INIT Init
NEXT Next
CONSTANTS
  Q = 3
  Degree = 2
INVARIANTS Sound Known
CHECK_DEADLOCK FALSE
