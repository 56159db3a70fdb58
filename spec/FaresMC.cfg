SPECIFICATION Spec
INVARIANT Inv
CONSTANT Depth = 3
CHECK_DEADLOCK FALSE
