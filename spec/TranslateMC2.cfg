SPECIFICATION Spec
CONSTANTS
  IdSet = {"a", "b"}
  Texts = {"x", "a", "y"}
  Values = {"a", "b", "x", ""}
  Foreign = {"p", "q"}
  Langs2 = {"es", "fr"}
INVARIANTS
  Kept
  EntriesBacked
  RowsKept
  OneAnswer
CHECK_DEADLOCK FALSE
