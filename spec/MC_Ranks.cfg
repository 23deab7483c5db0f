SPECIFICATION Spec
CONSTANTS
  Lattice = {0, 40000000, 120000000, 260000000}
  MaxN = 3
INVARIANTS Ranges Same
PROPERTY Laws
CHECK_DEADLOCK FALSE
