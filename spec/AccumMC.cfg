SPECIFICATION Spec
INVARIANT Inv
CONSTANTS
Depth = 4
MaxLimit = 2
CHECK_DEADLOCK FALSE
