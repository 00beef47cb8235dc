SPECIFICATION MSpec
INVARIANT Right
INVARIANT HasReason
CHECK_DEADLOCK FALSE
