SPECIFICATION Spec
CONSTANT MaxSubtags = 3
INVARIANTS
  SameForm
  SameWord
  OneReading
  Again
CHECK_DEADLOCK FALSE
