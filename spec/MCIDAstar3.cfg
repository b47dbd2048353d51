SPECIFICATION FairSpec
CONSTANTS
  N = 3
  Costs = {1, 2, 3}
  Hs = {0, 1, 2}
  Lims = {0, 2}
INVARIANTS Optimal BoundSound FoundOrNone Limits
PROPERTY Ends
CHECK_DEADLOCK FALSE
