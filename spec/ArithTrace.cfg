CONSTANTS
  P = 97
  TwoAdicity = 5
  Gen = 5
  Chunks = 64
INIT Init
NEXT Next
INVARIANT Ok
CHECK_DEADLOCK FALSE
