CONSTANTS Depth = 3
 Pool = "small"
SPECIFICATION Spec
INVARIANTS KeptOrReported OneOfExplains UniqueIds NoSilentDangling KeptStandsAlone
PROPERTIES Monotone
CHECK_DEADLOCK FALSE
