SPECIFICATION Spec
CONSTANT LastYear = 12000
INVARIANTS TypeOK ClosedForm SameMachine Arithmetic
CHECK_DEADLOCK FALSE
