SPECIFICATION Spec
INVARIANT Observed
CHECK_DEADLOCK FALSE
