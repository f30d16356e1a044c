CONSTANTS
  Vals = {0, 3}
INIT Init
NEXT Next
INVARIANTS Faithful Stepwise Emit
CHECK_DEADLOCK FALSE
