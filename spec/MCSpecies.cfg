SPECIFICATION Spec
CONSTANT MaxLen = 4
INVARIANTS Answer CaseFree TwoWins Own
PROPERTY Grows
CHECK_DEADLOCK FALSE
