SPECIFICATION Spec
CONSTANTS
  Few = TRUE
  MaxStops = 2
  MaxRoutes = 1
  MaxTrips = 2
  MaxShapes = 1
INVARIANTS
  OnePerStop
  OnePerRoute
  ExactlyTheTrips
  PatternsPartition
  OneShapeEach
  Sound
  BackAgain
CHECK_DEADLOCK FALSE
