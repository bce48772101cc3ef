SPECIFICATION SessionSpec
CONSTANT First <- Opens
CONSTANT Created <- Opened
CONSTANT Answer <- Reply
INVARIANT Conforms
POSTCONDITION Complete
CHECK_DEADLOCK FALSE
