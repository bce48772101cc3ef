SPECIFICATION SessionSpec
CONSTANT First <- Opens
CONSTANT Created <- Opened
CONSTANT Answer <- Reply
INVARIANT AsRequested
INVARIANT Conforms
POSTCONDITION Complete
CHECK_DEADLOCK FALSE
