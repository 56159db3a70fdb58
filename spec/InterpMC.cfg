CONSTANTS MaxStops = 4
 Times = {0, 7, 20}
 Dists = {0, 1, 3}
INIT Init
NEXT Next
INVARIANTS Exists NotBackwards Emit
CHECK_DEADLOCK FALSE
