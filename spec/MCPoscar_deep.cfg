SPECIFICATION Spec
CONSTANTS
  Vals = {0, 5, 25, 55, 99}
  MaxAtoms = 2
  MaxDec = 3
INVARIANTS Written Back CellBack Again
