SPECIFICATION MCSpec
CONSTANT Depth = 4
INVARIANTS Denotation PointsScale Symmetric
