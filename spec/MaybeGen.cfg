CONSTANTS
  MaxLen = 5
  Values = {3, 8}
  MaxRegs = 3
  EmitLen = 3
INIT GInit
NEXT GNext
CHECK_DEADLOCK FALSE
