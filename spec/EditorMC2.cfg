SPECIFICATION Spec
CONSTANTS
 Coords <- MCCoords
 Steps = 3
INVARIANTS History AllOnEarth
PROPERTIES MoveIsMove RefusedMovesNothing RestKept
CHECK_DEADLOCK FALSE
