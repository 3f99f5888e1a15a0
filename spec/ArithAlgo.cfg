CONSTANTS
  P = 17
  TwoAdicity = 4
  Gen = 3
  MaxK = 3
  Vals = {0, 1, 5, 16}
  Xs = {0, 1, 2, 16}
  MaxM = 20
  MaxRoots = 4
INIT Init
NEXT Next
INVARIANT Ok
CHECK_DEADLOCK FALSE
