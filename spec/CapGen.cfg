CONSTANTS
  P = 12289
  N = 32
  Around = 4
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
