SPECIFICATION Spec
CONSTANTS
  Lattice = {0, 40000000, 130000000, 260000000}
  MaxN = 3
INVARIANT Decomposed
PROPERTY Laws
CHECK_DEADLOCK FALSE
