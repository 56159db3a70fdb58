SPECIFICATION Spec
CONSTANT End = 4
INVARIANTS OldService NewService Apart0 Sound Untouched Whole
CHECK_DEADLOCK FALSE
