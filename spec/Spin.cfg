SPECIFICATION SpinSpec
CONSTANT Days = 73050
INVARIANTS WithinTurn Formula
CHECK_DEADLOCK FALSE
