SPECIFICATION Spec
CONSTANTS
  Lattice = {0, 35000000, 110000000, 250000000}
  N = 3
INVARIANTS Ranges Self
PROPERTY Laws
CHECK_DEADLOCK FALSE
