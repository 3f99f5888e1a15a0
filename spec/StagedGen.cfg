CONSTANTS
  P = 12289
  Gen = 11
  TwoAdicity = 12
  N = 32
  EmitLen = 2
  Sizes = {0, 1, 2, 3}
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
