SPECIFICATION Spec
CONSTANT M = 8
INVARIANTS Trichotomy Derived Antisymmetric Exact0 Near
PROPERTY Monotone
CHECK_DEADLOCK FALSE
