SPECIFICATION Spec
CONSTANTS
  Ks = {50, 1000, 8000}
  Rs = {0, 100, 400, 900}
  Ps <- PsDef
INVARIANT Laws1
CHECK_DEADLOCK FALSE
