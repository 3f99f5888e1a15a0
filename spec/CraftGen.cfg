INIT Init
NEXT Next
CONSTANTS
  Points = 2
  Shown = 24
CHECK_DEADLOCK FALSE
