CONSTANTS Depth = 2
SPECIFICATION Spec
VIEW View
INVARIANTS OnePerName OneClassPerName OrderExists AddThenRemove
PROPERTIES Local
CHECK_DEADLOCK FALSE
