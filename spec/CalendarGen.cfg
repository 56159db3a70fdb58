CONSTANTS Days = {1, 2, 3, 5, 8, 9, 14, 21}
 Depth = 8
SPECIFICATION GenSpec
INVARIANTS Emit
CHECK_DEADLOCK FALSE
