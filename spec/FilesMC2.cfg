SPECIFICATION Spec
CONSTANT Depth = 6
INVARIANTS Follows Inside NoDots PlainIsNamed Detour Absolute Served1 NeverSecret
CHECK_DEADLOCK FALSE
