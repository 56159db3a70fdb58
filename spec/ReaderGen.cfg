CONSTANTS Depth = 7
 Pool = "large"
SPECIFICATION Spec
INVARIANTS Emit
CHECK_DEADLOCK FALSE
