SPECIFICATION Spec
CONSTANT Small = TRUE
INVARIANTS Closed OneRowPerId Represented1 ZonesApart BlocksApart Values
CHECK_DEADLOCK FALSE
