SPECIFICATION Spec
CONSTANTS
  Lattice = {0, 30000000, 100000000, 180000000, 210000000, 300000000}
  N = 5
  K = 2
INVARIANTS Short AtRest
PROPERTY Descends
CHECK_DEADLOCK FALSE
