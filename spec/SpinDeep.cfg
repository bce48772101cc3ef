SPECIFICATION SpinSpec
CONSTANT Days = 365250
INVARIANTS WithinTurn Formula
CHECK_DEADLOCK FALSE
