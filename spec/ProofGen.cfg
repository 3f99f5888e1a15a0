INIT Init
NEXT Next
CONSTANTS
  Hows = 2
  FuseHows = 1
  Mixtures = 30
  Fits = 1
CHECK_DEADLOCK FALSE
