SPECIFICATION Spec
CONSTANT E = 2
INVARIANTS DualIsDual Involution DualMetric DualVolume Symmetric FormIffPositive
CHECK_DEADLOCK FALSE
