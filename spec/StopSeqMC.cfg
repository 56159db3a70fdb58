CONSTANTS N = 3
INIT Init
NEXT Next
INVARIANTS BackExact BackSound FastNeedsDistanceOrTie DistExact DistWarn Moments OffExact
CHECK_DEADLOCK FALSE
