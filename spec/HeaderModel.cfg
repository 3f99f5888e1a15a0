INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
 MaxSize = 4
 Values = {0, 1}
 Base = 4
 Digits = 3
INVARIANT Fixed
INVARIANT Separate
INVARIANT SuffixMap
