SPECIFICATION Spec
INVARIANT Inv
CONSTANTS MaxLen = 8
 Kind = "time"
CHECK_DEADLOCK FALSE
