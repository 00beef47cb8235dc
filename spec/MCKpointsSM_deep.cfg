SPECIFICATION Spec
CONSTANT Depth = 7
INVARIANTS AllConsistent TextIsList
PROPERTIES Atomic Independent
CHECK_DEADLOCK FALSE
