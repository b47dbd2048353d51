SPECIFICATION Spec
CONSTANTS
  N = 4
  Costs = {1, 3}
  Hs = {0, 2}
  Widths = {1, 2, 4}
  Drops = {FALSE}
  Lims = {0}
INVARIANTS WidthOK WideComplete BeamLimits
CHECK_DEADLOCK FALSE
