INIT Init
NEXT Next
CONSTANTS
  Vals = {0, 2}
  MaxPairs = 2
INVARIANTS PoolingIsWholeSample Relations Emit
CHECK_DEADLOCK FALSE
