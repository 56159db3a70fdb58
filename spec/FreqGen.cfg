CONSTANTS Times = {0, 3600, 7200, 90000}
 Heads = {0, 600, 3600, 5000}
 MaxLen = 9
 Depth = 7
SPECIFICATION GenSpec
INVARIANTS Emit
CHECK_DEADLOCK FALSE
