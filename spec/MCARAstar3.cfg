SPECIFICATION FairSpec
CONSTANTS
  N = 3
  Costs = {1, 2, 4}
  Hs = {0, 1, 2}
  W0s = {12}
  DWs = {4, 5}
  Lims = {0, 2}
  Stops = {4, 1001}
INVARIANTS RowsImprove RowSound BoundSound ConvergedOptimal Heeded AraLimits
PROPERTY Ends
CHECK_DEADLOCK FALSE
