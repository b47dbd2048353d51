SPECIFICATION Spec
CONSTANTS
  N = 3
  As <- As2
  Bs <- Bs2
  Depth = 2
  Far = 30
INVARIANTS Exact RejectsRight
CHECK_DEADLOCK FALSE
