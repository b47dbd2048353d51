SPECIFICATION FairSpec
CONSTANTS
  N = 3
  Costs = {0, 1, 3}
  Hs = {0, 2}
  Algs = {"astar", "greedy"}
  Ws = {2}
  Drops = {FALSE}
  Lims = {0}
PROPERTY Progress
CHECK_DEADLOCK FALSE
