SPECIFICATION GenSpec
INVARIANTS Emit Denotation
