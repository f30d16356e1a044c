CONSTANT
  N = 5
INIT Init
NEXT Next
INVARIANTS Complete Parseval MeanWave Pure Turned InBand Emit
CHECK_DEADLOCK FALSE
