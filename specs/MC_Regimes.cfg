CONSTANT
  L = 5
INIT Init
NEXT Next
INVARIANTS Windowed Renamed Matched Left Emit
CHECK_DEADLOCK FALSE
