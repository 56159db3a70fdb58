SPECIFICATION Spec
INVARIANT Inv
CONSTANTS MaxLen = 5
 Kind = "number"
CHECK_DEADLOCK FALSE
