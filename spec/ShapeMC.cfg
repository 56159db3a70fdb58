CONSTANTS Seqs = {0, 1, 2}
 Dists = {0, 4, 6}
 MaxLen = 3
 Depth = 0
SPECIFICATION Spec
INVARIANTS Kept PlacesFound Located
PROPERTY DistReported
CHECK_DEADLOCK FALSE
