SPECIFICATION Spec
CONSTANTS MaxDiag = 4
 MaxEntry = 8
INVARIANTS Reduced6 SameVolume Fixed1
PROPERTIES Unique
CHECK_DEADLOCK FALSE
