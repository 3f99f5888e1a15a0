INIT Init
NEXT Next
CONSTANTS
  MaxItems = 4
  Witnesses = {1, 2}
INVARIANTS Carries Alone Complete Sound Preserves CacheOk
CHECK_DEADLOCK FALSE
