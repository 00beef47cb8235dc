SPECIFICATION Spec
INVARIANTS TicksPerLabel JoinedAtBreaks EveryPointLabelled Lengths
CHECK_DEADLOCK FALSE
