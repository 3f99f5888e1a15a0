CONSTANTS
  MaxFields = 2
  Deep = FALSE
INIT Init
NEXT Next
INVARIANTS Exact Numbered Compose
CHECK_DEADLOCK FALSE
