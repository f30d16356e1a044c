INIT Init
NEXT Next
CONSTANTS
  Winds = 4
INVARIANTS Whole Rotation Emit
CHECK_DEADLOCK FALSE
