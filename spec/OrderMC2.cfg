CONSTANTS Depth = 4
 Pool = "small"
SPECIFICATION Spec
INVARIANTS OrderFree
CHECK_DEADLOCK FALSE
