INIT Init
NEXT Next
INVARIANTS Arith Trig Dist
CHECK_DEADLOCK FALSE
