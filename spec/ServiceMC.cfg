CONSTANTS LastDay = 6
 Small = TRUE
INIT Init
NEXT Next
INVARIANTS Covers NoDatesNoService TripsNeedService GapsExact
CHECK_DEADLOCK FALSE
