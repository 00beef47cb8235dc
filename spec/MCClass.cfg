SPECIFICATION Spec
INVARIANTS Total Named Tables
CHECK_DEADLOCK FALSE
