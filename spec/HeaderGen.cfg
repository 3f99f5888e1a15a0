INIT Init
NEXT Next
CONSTANTS
 Sizes = {1, 2, 3, 4, 6, 9}
 Lens = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10}
 Reps = {1, 2}
CHECK_DEADLOCK FALSE
