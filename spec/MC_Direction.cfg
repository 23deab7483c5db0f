SPECIFICATION Spec
CONSTANTS
  Lattice = {0, 30000000, 60000000, 150000000, 300000000, 330000000}
  Dirs = {0, 30000000, 105000000}
  MaxN = 4
INVARIANT Ranges
PROPERTY Laws
CHECK_DEADLOCK FALSE
