CONSTANTS Times = {0, 3, 4, 9}
 Heads = {0, 1, 3, 4}
 MaxLen = 3
 Depth = 1
SPECIFICATION Spec
VIEW View
INVARIANTS StartsExact Sorted NoRepeat Symmetric OverlapExact
PROPERTIES Kept
CHECK_DEADLOCK FALSE
