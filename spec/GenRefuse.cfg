SPECIFICATION GSpec
INVARIANT EmitR
CHECK_DEADLOCK FALSE
