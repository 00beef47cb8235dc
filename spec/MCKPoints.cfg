SPECIFICATION KSpec
CONSTANT Stride = 5
INVARIANT PointsInZone
CHECK_DEADLOCK FALSE
