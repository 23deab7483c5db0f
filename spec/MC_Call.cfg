SPECIFICATION Spec
CONSTANTS
  Depth = 5
INVARIANTS Quiet Caught
CHECK_DEADLOCK FALSE
