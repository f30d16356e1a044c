CONSTANTS
  N = 4
  H = TRUE
INIT Init
NEXT Next
INVARIANTS Bounds Meets Defined Buried Flipped Identity Refine Upwards AboveGround Emit
CHECK_DEADLOCK FALSE
