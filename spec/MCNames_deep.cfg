SPECIFICATION Spec
CONSTANT MaxLen = 6
INVARIANTS Short Longer
CHECK_DEADLOCK FALSE
