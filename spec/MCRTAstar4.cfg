SPECIFICATION FairSpec
CONSTANTS
  N = 4
  Costs = {1, 2}
  Hs = {0, 1, 2}
  Looks = {0, 1}
INVARIANTS Finished
PROPERTY Reaches
CHECK_DEADLOCK FALSE
