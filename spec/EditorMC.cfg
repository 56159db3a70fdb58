SPECIFICATION Spec
CONSTANTS
 Coords <- MCCoords
 Steps = 2
INVARIANTS History AllOnEarth
PROPERTIES MoveIsMove RefusedMovesNothing RestKept
CHECK_DEADLOCK FALSE
