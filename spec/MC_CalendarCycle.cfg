SPECIFICATION Spec
INVARIANTS TypeOK ClosedForm Accepted Periodic BigAgrees Anchor J2000 SameMachine Arithmetic
CHECK_DEADLOCK FALSE
