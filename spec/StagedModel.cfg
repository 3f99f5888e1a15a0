CONSTANTS
  P = 17
  Gen = 3
  TwoAdicity = 4
  N = 3
  MaxStages = 2
  MaxValues = 4
SPECIFICATION Spec
INVARIANTS Partition MaskExact Sums
CHECK_DEADLOCK FALSE
