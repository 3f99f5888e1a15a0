INIT Init
NEXT Next
CONSTANTS
  Size = 2
INVARIANTS Shape Covered Complete Sound Stricter Single
CHECK_DEADLOCK FALSE
