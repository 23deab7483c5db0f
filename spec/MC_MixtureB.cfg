SPECIFICATION Spec
CONSTANTS
  N = 3
  Grid = 3
  MaxIter = 3
  Exact = FALSE
INVARIANT IsMix
INVARIANT Commutes
INVARIANT Flag
PROPERTY Climbs
CHECK_DEADLOCK FALSE
