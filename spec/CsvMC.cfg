SPECIFICATION Spec
CONSTANTS MaxLen = 2 MaxRows = 1 MaxCells = 2 Letters = {97, 44, 34, 10}
INVARIANTS NeverBad Prefix GivenBack
CHECK_DEADLOCK FALSE
