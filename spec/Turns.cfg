SPECIFICATION TurnsSpec
INVARIANTS InRange Congruent Kept
PROPERTY Home
CHECK_DEADLOCK FALSE
