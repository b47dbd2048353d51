SPECIFICATION Spec
CONSTANTS
  N = 4
  Prios = {0, 1, 2}
INVARIANTS Linked Members Implements
CHECK_DEADLOCK FALSE
