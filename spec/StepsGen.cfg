INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
 Pairs = 3000
 Longer = 400
 Finish = 8
 Sizes = {1, 49}
