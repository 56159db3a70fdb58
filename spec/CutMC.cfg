SPECIFICATION Spec
CONSTANT End = 3
INVARIANTS OldService NewService Apart0 Sound Untouched Whole
CHECK_DEADLOCK FALSE
