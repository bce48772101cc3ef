SPECIFICATION CivilSpec
INVARIANTS Accounted ClosedForm TypeOK
PROPERTY Forward
CHECK_DEADLOCK FALSE
