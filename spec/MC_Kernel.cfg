SPECIFICATION Spec
CONSTANTS
  Lattice = {0, 50000000, 137000000, 290000000}
  Ns = {1, 2}
  Hs = {30000000, 75000000, 179000000}
  Steps = 4
INVARIANTS One Positive Undone Fresh
PROPERTY Laws
CHECK_DEADLOCK FALSE
