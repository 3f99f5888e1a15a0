CONSTANTS
  Chunks = 64
  Gates = 2048
INIT Init
NEXT Next
INVARIANT Ok
CHECK_DEADLOCK FALSE
