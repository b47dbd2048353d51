SPECIFICATION Spec
CONSTANTS
  Small = {22, 32, 23}
  Big = {33, 43, 34, 62}
INVARIANTS Solvable Estimate
CHECK_DEADLOCK FALSE
