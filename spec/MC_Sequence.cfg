SPECIFICATION Spec
CONSTANTS
  Lattice = {0, 35000000, 110000000, 250000000}
  MaxN = 5
INVARIANT Ranges
PROPERTY Laws
CHECK_DEADLOCK FALSE
