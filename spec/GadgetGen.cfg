CONSTANTS
  MaxFold = 3
  MaxPack = 8
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
