SPECIFICATION FairSpec
CONSTANTS
  N = 3
  Costs = {1, 2, 4}
  Hs = {0, 1, 2}
  Looks = {1, 2}
  OneSteps = {FALSE, TRUE}
  Completes = {FALSE, TRUE}
  Ws = {2}
  Lims = {0, 2}
INVARIANTS LearnAdmissible LearnGrows MovesOK NoReopen LookBound StopsAtGoal
PROPERTY Reaches
CHECK_DEADLOCK FALSE
