SPECIFICATION Spec
INVARIANTS Counts Lattices Variants Labels Growing
CHECK_DEADLOCK FALSE
