INIT Init
NEXT Next
INVARIANTS Complete Emit
CHECK_DEADLOCK FALSE
