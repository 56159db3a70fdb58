CONSTANTS Depth = 3
SPECIFICATION Spec
VIEW View
INVARIANTS OnePerName OneClassPerName OrderExists AddThenRemove
PROPERTIES Local
CHECK_DEADLOCK FALSE
