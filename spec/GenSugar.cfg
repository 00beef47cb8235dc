SPECIFICATION GSpec
CONSTANT Depth = 30
INVARIANTS Good Emit
CHECK_DEADLOCK FALSE
