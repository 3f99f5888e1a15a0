CONSTANTS
  Most = 2
  Bits <- Small
  Inputs <- Three
  PerStep <- Small
INIT Init
NEXT Next
VIEW Bag
INVARIANTS Kept Own_ Told
CHECK_DEADLOCK FALSE
