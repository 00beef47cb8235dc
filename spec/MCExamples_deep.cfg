SPECIFICATION Spec
CONSTANTS Shared = FALSE Depth = 5
INVARIANTS LibraryKeeps NamesResolve CellsAreRight
CHECK_DEADLOCK FALSE
