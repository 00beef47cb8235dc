SPECIFICATION KSpec
CONSTANT Stride = 1
INVARIANT PointsInZone
CHECK_DEADLOCK FALSE
