SPECIFICATION Spec
CONSTANTS MaxDiag = 2
 MaxEntry = 4
INVARIANTS Reduced6 SameVolume Fixed1
PROPERTIES Unique
CHECK_DEADLOCK FALSE
