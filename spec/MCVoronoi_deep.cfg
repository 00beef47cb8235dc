SPECIFICATION Spec
CONSTANT Top = 3
INVARIANT CellIsAPolyhedron
CHECK_DEADLOCK FALSE
