CONSTANTS
  P = 97
  N = 64
  Workers = {1, 2, 3}
SPECIFICATION Spec
INVARIANTS SameTrace HandedIn Unique
PROPERTY Finishes
CHECK_DEADLOCK FALSE
