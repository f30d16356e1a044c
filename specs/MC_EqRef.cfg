INIT Init
NEXT Next
INVARIANTS Idempotent Monotone Nothing Everything Emit
CHECK_DEADLOCK FALSE
