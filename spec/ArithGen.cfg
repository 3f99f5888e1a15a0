CONSTANTS
  P = 97
  TwoAdicity = 5
  Gen = 5
  MaxK = 3
  Vals = {0, 1, 5, 96}
  Xs = {0, 1, 2, 96}
  MaxM = 40
  MaxRoots = 4
INIT GInit
NEXT GNext
CHECK_DEADLOCK FALSE
