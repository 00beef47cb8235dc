SPECIFICATION Spec
CONSTANTS
  Depth = 2
  Groups = {"g"}
  Moved = FALSE
INVARIANTS Contents OneEntry Twelve Obtuses
PROPERTY Grows
CHECK_DEADLOCK FALSE
