SPECIFICATION Spec
CONSTANT MaxLen = 6
INVARIANTS RoundTripText RoundTripList Pieces
CHECK_DEADLOCK FALSE
