SPECIFICATION GSpec
CONSTANT Depth = 22
INVARIANTS Emit
CHECK_DEADLOCK FALSE
