SPECIFICATION Spec
CONSTANTS
  N = 4
  Keys = {0, 1, 2}
INVARIANTS Ordered Indexed FrontMinimal Implements
CHECK_DEADLOCK FALSE
