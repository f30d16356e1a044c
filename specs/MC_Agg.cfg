INIT Init
NEXT Next
INVARIANTS Complete Distinct GroupUnion Emit
CHECK_DEADLOCK FALSE
