SPECIFICATION Spec
CONSTANTS
  Fault = "none"
  Depth = 8
INVARIANTS TablesKept InputsKept SameResults
