SPECIFICATION TraceSpec
INVARIANT Conforms
POSTCONDITION Complete
CHECK_DEADLOCK FALSE
