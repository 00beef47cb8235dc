SPECIFICATION Spec
CONSTANTS
  Depth = 1
  Groups = {"", "g"}
  Moved = TRUE
INVARIANTS Contents OneEntry Twelve Obtuses
PROPERTY Grows
CHECK_DEADLOCK FALSE
