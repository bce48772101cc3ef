SPECIFICATION ClockSpec
INVARIANTS SegmentOK JumpsPublished Eras Final Growing ClosedForm
PROPERTY OneAtATime
CHECK_DEADLOCK FALSE
