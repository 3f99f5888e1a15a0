CONSTANTS
  P = 12289
  Gen = 11
  TwoAdicity = 12
  N = 32
  Chunks = 64
INIT Init
NEXT Next
INVARIANT Ok
CHECK_DEADLOCK FALSE
