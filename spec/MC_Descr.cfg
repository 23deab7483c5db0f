SPECIFICATION Spec
CONSTANTS
  Lattice = {0, 45000000, 100000000, 180000000, 270000000, 350000000}
  MaxN = 3
  MaxW = 2
INVARIANTS Bounds Coherent
PROPERTY Laws
CHECK_DEADLOCK FALSE
