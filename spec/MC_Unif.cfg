SPECIFICATION Spec
CONSTANTS
  Lattice = {0, 40000000, 95000000, 170000000, 250000000, 330000000}
  MaxN = 4
INVARIANTS Ranges Extremes
PROPERTY Laws
CHECK_DEADLOCK FALSE
