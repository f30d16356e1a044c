INIT Init
NEXT Next
INVARIANTS MirrorLaw Duality Nested Emit
CHECK_DEADLOCK FALSE
