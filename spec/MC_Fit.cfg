SPECIFICATION Spec
CONSTANTS
  N = 4
  Grid = 5
  MaxW = 2
  Steps = 3
INVARIANT ValidLaw
INVARIANT Equivariant
INVARIANT VonMisesDirection
PROPERTY Climbs
CHECK_DEADLOCK FALSE
