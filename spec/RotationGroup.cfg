SPECIFICATION Spec
CONSTANT MaxWord = 4
INVARIANTS Proper SameTurns SameProduct Orders
CHECK_DEADLOCK FALSE
