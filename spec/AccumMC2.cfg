SPECIFICATION Spec
INVARIANT Inv
CONSTANTS
Depth = 5
MaxLimit = 3
CHECK_DEADLOCK FALSE
