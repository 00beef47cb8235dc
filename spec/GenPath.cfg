SPECIFICATION Spec
CONSTANT MaxLen = 7
INVARIANTS Emit
CHECK_DEADLOCK FALSE
