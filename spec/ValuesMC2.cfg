SPECIFICATION Spec
INVARIANT Inv
CONSTANTS MaxLen = 7
 Kind = "number"
CHECK_DEADLOCK FALSE
