SPECIFICATION Spec
CONSTANT Small = FALSE
INVARIANTS Closed OneRowPerId Represented1 ZonesApart BlocksApart Values
CHECK_DEADLOCK FALSE
