SPECIFICATION GSpec
CONSTANT Depth = 16
INVARIANTS Emit
CHECK_DEADLOCK FALSE
