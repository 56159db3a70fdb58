SPECIFICATION Spec
CONSTANTS
 Sites = {0, 100, 1000, 2000}
 MaxLines = 2
INVARIANTS OwnKept Comes Shared Found
CHECK_DEADLOCK FALSE
