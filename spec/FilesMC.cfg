SPECIFICATION Spec
CONSTANT Depth = 4
INVARIANTS Follows Inside NoDots PlainIsNamed Detour Absolute Served1 NeverSecret
CHECK_DEADLOCK FALSE
