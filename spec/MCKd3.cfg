SPECIFICATION Spec
CONSTANTS
  Max = 4
  Coord = {0, 2, 4}
  Query = {0, 1, 2, 3, 4}
INVARIANTS NearestRight
CHECK_DEADLOCK FALSE
