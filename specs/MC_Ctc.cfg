INIT Init
NEXT Next
CONSTANTS
  M1 = 2
  M2 = 1
INVARIANTS Laws Symmetry Range Emit
CHECK_DEADLOCK FALSE
