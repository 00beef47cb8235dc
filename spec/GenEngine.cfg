SPECIFICATION GSpec
CONSTANT Depth = 8
INVARIANTS Good Emit
CHECK_DEADLOCK FALSE
