SPECIFICATION GSpec
CONSTANT Depth = 14
INVARIANTS Emit Good
CHECK_DEADLOCK FALSE
