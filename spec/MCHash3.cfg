SPECIFICATION Spec
CONSTANTS
  N = 3
  Ks = {1, 2, 3}
  Hashes = {0, 1, 2, 3}
  Fact = 1
  Maxbins = 4
INVARIANTS Counted Chained FindsRight
CHECK_DEADLOCK FALSE
