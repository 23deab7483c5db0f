SPECIFICATION Spec
CONSTANTS
  Lattice = {0, 45000000, 90000000, 135000000, 180000000, 270000000, 330000000}
  MaxN = 4
  Bins = {5, 6}
  MaxF = 3
INVARIANTS MustInMay PiecewiseLinear Halves GroupRotates GroupMirrors
PROPERTY Laws
CHECK_DEADLOCK FALSE
