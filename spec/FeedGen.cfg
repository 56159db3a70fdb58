CONSTANTS Depth = 12
 Pool = "large"
SPECIFICATION Spec
INVARIANTS Emit
CHECK_DEADLOCK FALSE
