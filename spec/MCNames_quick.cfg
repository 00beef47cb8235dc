SPECIFICATION Spec
CONSTANT MaxLen = 4
INVARIANTS Short Longer
CHECK_DEADLOCK FALSE
