SPECIFICATION Spec
CONSTANT MaxLen = 8
INVARIANTS RoundTripText RoundTripList Pieces
CHECK_DEADLOCK FALSE
