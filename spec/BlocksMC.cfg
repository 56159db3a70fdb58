CONSTANTS N = 2
 T = 3
INIT Init
NEXT Next
INVARIANTS Sound Complete
CHECK_DEADLOCK FALSE
