SPECIFICATION Spec
CONSTANTS
  Lattice = {0, 50000000, 135000000, 180000000, 301000000}
  Ns = {1, 2, 3}
  Ms = {0, 4, 6, 9}
  MaxW = 2
INVARIANTS Counts Near Halves
PROPERTY Laws
CHECK_DEADLOCK FALSE
