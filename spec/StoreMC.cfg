SPECIFICATION Spec
CONSTANTS Depth = 3 Small = TRUE
INVARIANTS GivenBack Stable OnePerId
CHECK_DEADLOCK FALSE
