SPECIFICATION Spec
CONSTANT Depth = 2
INVARIANT Agrees
CHECK_DEADLOCK FALSE
