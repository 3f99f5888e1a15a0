CONSTANTS
  P = 13
  Rates = {1, 2, 3}
  Depth = 7
  Values = {1, 2}
INIT Init
NEXT Next
INVARIANTS Denotes NoReuse Binding Transparent Refusals LabelsSeparate
CHECK_DEADLOCK FALSE
