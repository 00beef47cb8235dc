SPECIFICATION GSpec
CONSTANT Depth = 16
INVARIANT LegalAll
INVARIANT Emit
CHECK_DEADLOCK FALSE
