SPECIFICATION Spec
CONSTANTS
  Sharing = FALSE
  Depth = 9
INVARIANTS DataKept InputsKept CallsAgree
