SPECIFICATION MCSpec
CONSTANT Depth = 3
INVARIANTS Denotation PointsScale Symmetric
