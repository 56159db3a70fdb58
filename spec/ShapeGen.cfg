CONSTANTS Seqs = {0, 1, 2, 3, 5, 8, 13}
 Dists = {0, 1, 2, 4, 6, 10, 30}
 MaxLen = 9
 Depth = 7
SPECIFICATION GenSpec
INVARIANTS Emit
CHECK_DEADLOCK FALSE
