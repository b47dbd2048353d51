SPECIFICATION Spec
CONSTANTS
  N = 3
  Costs = {0, 1, 2, 3}
  Hs = {0, 1, 2, 3}
  Algs = {"astar", "wastar", "greedy", "bugsy"}
  Ws = {0, 2, 3, 4}
  Drops = {FALSE, TRUE}
  Lims = {0, 1}
INVARIANTS TypeOK Chains GSound OptimalA BoundW Complete Correct NoReopen Limits
CHECK_DEADLOCK FALSE
