CONSTANTS Trips = {"t1", "t2", "t3"}
 Stops = {"A", "B", "C"}
 Times = {0, 60, 3600}
 MaxLen = 6
 Depth = 10
SPECIFICATION GenSpec
INVARIANTS Emit
CHECK_DEADLOCK FALSE
