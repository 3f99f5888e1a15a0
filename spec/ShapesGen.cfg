CONSTANTS
  Triples = 12
  Long = 12
  Trees = 16
  Widest = 33
  Seed = 1
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
