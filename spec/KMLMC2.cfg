SPECIFICATION Spec
CONSTANTS
  Few = FALSE
  MaxStops = 1
  MaxRoutes = 1
  MaxTrips = 2
  MaxShapes = 1
INVARIANTS
  OnePerStop
  OnePerRoute
  ExactlyTheTrips
  PatternsPartition
  OneShapeEach
  Sound
  BackAgain
CHECK_DEADLOCK FALSE
