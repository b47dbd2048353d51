SPECIFICATION FairSpec
CONSTANTS
  N = 3
  Costs = {1, 2, 4}
  Hs = {0, 1, 2}
  Looks = {0, 1, 2}
INVARIANTS Finished
PROPERTY Reaches
CHECK_DEADLOCK FALSE
