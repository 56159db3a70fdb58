SPECIFICATION Spec
CONSTANTS
  Shapes = {1, 2, 3, 4}
  PathCount = 2
  Opts <- OptSet
INVARIANTS
  Whole
  Inside
  Closed
  Refused
  Each
CHECK_DEADLOCK FALSE
