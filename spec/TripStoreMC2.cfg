CONSTANTS Trips = {"t1"}
 Stops = {"A", "B"}
 Times = {1, 2}
 MaxLen = 5
 Depth = 1
SPECIFICATION Spec
VIEW View
INVARIANTS Ordered VisitsCount
PROPERTIES OneTrip AddAppends ReplaceKeeps SilentAddMonotone
CHECK_DEADLOCK FALSE
