CONSTANTS
  P = 12289
  N = 32
  EmitOps = 3
  EmitDepth = 2
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
