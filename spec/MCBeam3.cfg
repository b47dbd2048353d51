SPECIFICATION FairSpec
CONSTANTS
  N = 3
  Costs = {1, 2}
  Hs = {0, 1, 2}
  Widths = {1, 2, 3}
  Drops = {FALSE, TRUE}
  Lims = {0, 1}
INVARIANTS WidthOK WideComplete BeamLimits
PROPERTY Ends
CHECK_DEADLOCK FALSE
