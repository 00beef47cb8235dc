SPECIFICATION GSpec
CONSTANT MaxLen2 = 6
INVARIANTS Right Emit
CHECK_DEADLOCK FALSE
