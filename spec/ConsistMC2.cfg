SPECIFICATION Spec
CONSTANTS
  RouteCount = 3
  TripCount = 3
INVARIANTS
  Names
  Trips
  Kinds
  Sparse
CHECK_DEADLOCK FALSE
