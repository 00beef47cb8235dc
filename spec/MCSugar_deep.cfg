SPECIFICATION Spec
CONSTANTS
  Depth = 5
  MaxObjs = 3
INVARIANTS Inv Twins PutGet
PROPERTIES Independent Rejected MadeEqual
CHECK_DEADLOCK FALSE
