SPECIFICATION Spec
INVARIANTS
  Exactly
  Mended
  FareSteady
CHECK_DEADLOCK FALSE
