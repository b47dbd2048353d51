SPECIFICATION Spec
CONSTANTS
  N = 4
  Costs = {1, 2}
  Hs = {0, 1}
  Lims = {0}
INVARIANTS Optimal BoundSound FoundOrNone Limits
CHECK_DEADLOCK FALSE
