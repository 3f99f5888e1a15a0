INIT Init
NEXT Next
CONSTANTS
  HeaderSize = 2
  Group = 2
  Groups = 2
  Most = 1
  Rx <- SmallRx
  Masks <- SmallMasks
INVARIANTS Complete SoundOK Seen Causal Ordered
CHECK_DEADLOCK FALSE
