SPECIFICATION ReqSpec
CONSTANT Length = 3
POSTCONDITION Enumerated
CHECK_DEADLOCK FALSE
