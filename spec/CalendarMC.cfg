CONSTANTS Days = {1, 2, 9}
 Depth = 8
SPECIFICATION Spec
VIEW View
INVARIANTS ListAgrees RangeCovers RangeNone RowsFaithful
PROPERTIES LastExceptionWins ResetRestores Local
CHECK_DEADLOCK FALSE
