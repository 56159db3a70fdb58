SPECIFICATION Spec
CONSTANTS
  Shapes = {1, 2, 3}
  PathCount = 1
  Opts <- OptSet
INVARIANTS
  Whole
  Inside
  Closed
  Refused
  Each
CHECK_DEADLOCK FALSE
