INIT Init
NEXT Next
CONSTANTS
  Cnt = {0, 2}
  Thr = {"0.25", "0.5"}
INVARIANTS Pooling Decomposition AreaIsPairOrder Ranges Emit
CHECK_DEADLOCK FALSE
