SPECIFICATION Spec
CONSTANTS
  Depth = 4
  MaxObjs = 2
INVARIANTS Inv Twins PutGet
PROPERTIES Independent Rejected MadeEqual
CHECK_DEADLOCK FALSE
