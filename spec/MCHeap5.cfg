SPECIFICATION Spec
CONSTANTS
  N = 5
  Keys = {0, 1, 2}
INVARIANTS Ordered Indexed FrontMinimal Implements
CHECK_DEADLOCK FALSE
