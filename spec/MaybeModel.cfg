CONSTANTS
  MaxLen = 4
  Values = {3, 8}
  MaxRegs = 3
  EmitLen = 3
INIT Init
NEXT Next
INVARIANTS EmptyIsInert SameShape Conserved FirstError
CHECK_DEADLOCK FALSE
