SPECIFICATION Spec
CONSTANTS
  N = 3
  Costs = {0, 1, 3}
  Hs = {0, 1, 3}
  Algs = {"astar", "wastar", "bugsy"}
  Ws = {0, 2, 4}
  Drops = {FALSE}
  Lims = {0, 1}
INVARIANTS TypeOK Chains GSound OptimalA BoundW Complete Correct NoReopen Limits
CHECK_DEADLOCK FALSE
