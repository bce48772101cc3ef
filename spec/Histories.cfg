SPECIFICATION Spec
CONSTANT Length = 4
INVARIANT TypeOK
CHECK_DEADLOCK FALSE
