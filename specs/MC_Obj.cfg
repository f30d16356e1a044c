INIT Init
NEXT Next
INVARIANTS Partition Scores Emit
CHECK_DEADLOCK FALSE
