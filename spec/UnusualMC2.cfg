CONSTANTS N = 5
INIT Init
NEXT Next
INVARIANTS Idempotent Untouched Alike ZeroMarksNone Monotone SomeUsual
CHECK_DEADLOCK FALSE
