CONSTANTS N = 4
INIT Init
NEXT Next
INVARIANTS Admissible Symmetric Triangle LeastOfChains BeamsAgree
CHECK_DEADLOCK FALSE
