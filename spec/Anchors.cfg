SPECIFICATION Spec
INVARIANT Published
CHECK_DEADLOCK FALSE
