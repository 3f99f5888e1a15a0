CONSTANTS
  P = 5
  Ns = {1, 2, 3}
  Ms = {1, 2, 3}
  Size = 2
  Diffs = {0}
INIT Init
NEXT Next
INVARIANTS Complete Sound Paired
CHECK_DEADLOCK FALSE
