SPECIFICATION ClockSpec
INVARIANTS Denotes Fraction Valid Displayed
PROPERTY Ends
CHECK_DEADLOCK FALSE
