CONSTANTS N = 4
INIT Init
NEXT Next
INVARIANTS Idempotent Untouched Alike ZeroMarksNone Monotone SomeUsual
CHECK_DEADLOCK FALSE
