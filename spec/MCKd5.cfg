SPECIFICATION Spec
CONSTANTS
  Max = 5
  Coord = {0, 2, 5}
  Query = {0, 1, 2, 3, 4}
INVARIANTS NearestRight
CHECK_DEADLOCK FALSE
