SPECIFICATION Spec
CONSTANT Depth = 4
INVARIANTS AllConsistent TextIsList
PROPERTIES Atomic Independent
CHECK_DEADLOCK FALSE
