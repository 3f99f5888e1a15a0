CONSTANTS
  P = 97
  N = 5
  MaxOps = 3
  MaxDepth = 2
  Vals = {0, 2}
  Wrong = {0, 95}
  EmitOps = 0
INIT Init
NEXT Next
INVARIANTS Agree Placed Provable AtAPoint
CHECK_DEADLOCK FALSE
