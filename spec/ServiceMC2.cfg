CONSTANTS LastDay = 7
 Small = FALSE
INIT Init
NEXT Next
INVARIANTS Covers NoDatesNoService TripsNeedService GapsExact
CHECK_DEADLOCK FALSE
