SPECIFICATION Spec
CONSTANTS
  Lattice = {0, 40000000, 130000000, 260000000}
  Betas <- BetasDef
INVARIANTS Scores Profile
CHECK_DEADLOCK FALSE
