SPECIFICATION Spec
CONSTANTS Shared = FALSE Depth = 4
INVARIANTS LibraryKeeps NamesResolve CellsAreRight
CHECK_DEADLOCK FALSE
