SPECIFICATION Spec
CONSTANTS
  JulianWord = 6
  GregorianWord = 3
  SunWord = 3
  AllOrders = TRUE
INVARIANTS Understood Accounted
CHECK_DEADLOCK FALSE
