CONSTANTS
  P = 12289
  N = 32
  Chunks = 64
  Regs = 4
INIT Init
NEXT Next
INVARIANT Ok
CHECK_DEADLOCK FALSE
