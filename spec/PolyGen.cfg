CONSTANTS
  P = 12289
  N = 32
  Cells = 2
  Widths = {4, 5}
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
