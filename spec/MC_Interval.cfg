SPECIFICATION Spec
CONSTANTS
  Lattice = {0, 40000000, 95000000, 170000000, 250000000, 330000000}
  MaxN = 4
INVARIANTS RangeIsHdi HdiMonotone QuantOrdered QuantInside HalfWidthGrows Straddles
PROPERTY Laws
CHECK_DEADLOCK FALSE
