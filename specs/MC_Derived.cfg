INIT Init
NEXT Next
INVARIANTS Laws SigLaws Emit
CHECK_DEADLOCK FALSE
