SPECIFICATION TraceSpec
POSTCONDITION Judged
CHECK_DEADLOCK FALSE
