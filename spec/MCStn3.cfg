SPECIFICATION Spec
CONSTANTS
  N = 3
  As <- As3
  Bs <- Bs3
  Depth = 3
  Far = 16
INVARIANTS Exact RejectsRight
CHECK_DEADLOCK FALSE
