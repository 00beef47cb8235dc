SPECIFICATION GSpec
INVARIANTS Meant Emit
CHECK_DEADLOCK FALSE
