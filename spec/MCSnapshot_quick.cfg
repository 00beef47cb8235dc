SPECIFICATION Spec
CONSTANTS
  Sharing = FALSE
  Depth = 7
INVARIANTS DataKept InputsKept CallsAgree
