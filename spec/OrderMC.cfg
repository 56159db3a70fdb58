CONSTANTS Depth = 3
 Pool = "small"
SPECIFICATION Spec
INVARIANTS OrderFree
CHECK_DEADLOCK FALSE
