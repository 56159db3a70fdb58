SPECIFICATION Spec
CONSTANTS
  RouteCount = 2
  TripCount = 2
INVARIANTS
  Names
  Trips
  Kinds
  Sparse
CHECK_DEADLOCK FALSE
