SPECIFICATION Spec
CONSTANT MaxSubtags = 5
INVARIANTS
  SameForm
  SameWord
  OneReading
  Again
CHECK_DEADLOCK FALSE
