SPECIFICATION Spec
INVARIANT Inv
CONSTANT Depth = 4
CHECK_DEADLOCK FALSE
