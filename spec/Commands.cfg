SPECIFICATION Spec
CONSTANTS
  JulianWord = 5
  GregorianWord = 2
  SunWord = 2
  AllOrders = FALSE
INVARIANTS Understood Accounted
CHECK_DEADLOCK FALSE
