SPECIFICATION GSpec
CONSTANT MaxLen2 = 4
INVARIANTS Right Emit
CHECK_DEADLOCK FALSE
