CONSTANTS
  P = 3
  N = 1
  Gap = 1
  MaxBlocks = 2
INIT Init
NEXT Next
INVARIANTS Iterates Binary Unary
CHECK_DEADLOCK FALSE
