CONSTANTS
  HeaderSize = 4
  Group = 7
  Groups = 19
  Chunks = 64
INIT Init
NEXT Next
INVARIANT Ok
CHECK_DEADLOCK FALSE
