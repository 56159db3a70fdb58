SPECIFICATION Spec
CONSTANTS MaxLen = 1 MaxRows = 2 MaxCells = 2 Letters = {97, 44, 34, 13, 10}
INVARIANTS NeverBad Prefix GivenBack
CHECK_DEADLOCK FALSE
