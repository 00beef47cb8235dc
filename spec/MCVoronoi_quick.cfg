SPECIFICATION Spec
CONSTANT Top = 1
INVARIANT CellIsAPolyhedron
CHECK_DEADLOCK FALSE
