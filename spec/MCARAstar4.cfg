SPECIFICATION Spec
CONSTANTS
  N = 4
  Costs = {1, 3}
  Hs = {0, 1, 3}
  W0s = {12}
  DWs = {4}
  Lims = {0}
  Stops = {1001}
INVARIANTS RowsImprove RowSound BoundSound ConvergedOptimal Heeded AraLimits
CHECK_DEADLOCK FALSE
