SPECIFICATION ReqSpec
CONSTANT Length = 2
POSTCONDITION Enumerated
CHECK_DEADLOCK FALSE
