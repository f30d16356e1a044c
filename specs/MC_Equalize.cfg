INIT Init
NEXT Next
INVARIANTS Idempotent SameCases Fewer Maximal Emit
CHECK_DEADLOCK FALSE
