SPECIFICATION Spec
CONSTANTS
  IdSet = {"a", "b"}
  Texts = {"x", "a"}
  Values = {"a", "b", "x"}
  Foreign = {"p", "q"}
  Langs2 = {"es"}
INVARIANTS
  Kept
  EntriesBacked
  RowsKept
  OneAnswer
CHECK_DEADLOCK FALSE
