SPECIFICATION GSpec
CONSTANT Depth = 24
INVARIANT Emit
CHECK_DEADLOCK FALSE
