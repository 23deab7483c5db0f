SPECIFICATION Spec
CONSTANTS
  As = {1, 2}
  Bs = {1, 2, 3}
  Bound = 2
INVARIANTS Answers OneEntry Blame
CHECK_DEADLOCK FALSE
