SPECIFICATION WalkSpec
CONSTANT Length = 8
INVARIANTS SameMoment NoDrift OneWay
CHECK_DEADLOCK FALSE
