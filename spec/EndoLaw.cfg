CONSTANTS
  P = 97
  B = 5
  Zeta = 35
  Order = 79
  L = 55
  Steps = 6
INIT Init
NEXT Next
INVARIANTS EndoIsL Lifted GroupLaw
CHECK_DEADLOCK FALSE
