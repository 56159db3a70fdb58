SPECIFICATION Spec
CONSTANTS Depth = 4 Small = FALSE
INVARIANTS GivenBack Stable OnePerId
CHECK_DEADLOCK FALSE
