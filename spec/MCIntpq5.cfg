SPECIFICATION Spec
CONSTANTS
  N = 5
  Prios = {0, 1, 2}
INVARIANTS Linked Members Implements
CHECK_DEADLOCK FALSE
