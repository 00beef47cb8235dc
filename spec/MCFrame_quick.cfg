SPECIFICATION Spec
CONSTANTS
  Fault = "none"
  Depth = 6
INVARIANTS TablesKept InputsKept SameResults
