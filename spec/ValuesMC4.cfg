SPECIFICATION Spec
INVARIANT Inv
CONSTANTS MaxLen = 8
 Kind = "date"
CHECK_DEADLOCK FALSE
