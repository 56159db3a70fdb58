CONSTANTS N = 3
 T = 2
INIT Init
NEXT Next
INVARIANTS Sound Complete
CHECK_DEADLOCK FALSE
