SPECIFICATION Spec
CONSTANTS
  Lattice = {0, 30000000, 100000000, 180000000, 210000000, 300000000}
  N = 5
  Goal = 1
INVARIANTS Partition Numbers NeverStuck MeansDefined EqualFirst SilRange
CHECK_DEADLOCK FALSE
