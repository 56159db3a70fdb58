CONSTANTS MaxStops = 5
 Times = {0, 7, 20}
 Dists = {0, 1, 3}
INIT Init
NEXT Next
INVARIANTS Exists NotBackwards
CHECK_DEADLOCK FALSE
