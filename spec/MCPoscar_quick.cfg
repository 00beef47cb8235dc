SPECIFICATION Spec
CONSTANTS
  Vals = {0, 55}
  MaxAtoms = 2
  MaxDec = 2
INVARIANTS Written Back CellBack Again
