SPECIFICATION Spec
CONSTANTS
  Step = 36000000
  Span = 11
INVARIANTS Wrapping Metric Arcs Trigon
CHECK_DEADLOCK FALSE
