SPECIFICATION Spec
CONSTANTS
  Lattice = {0, 35000000, 110000000, 250000000}
  Ax <- AxDef
INVARIANT Fits
PROPERTY Laws
CHECK_DEADLOCK FALSE
