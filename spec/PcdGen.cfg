INIT Init
NEXT Next
CONSTANTS
  Shallow = 1
  Deep = 1
  Tall = 2
  Full = 10
  Again2 = 1
CHECK_DEADLOCK FALSE
