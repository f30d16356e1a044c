INIT Init
NEXT Next
INVARIANTS Bounds Symmetric Local TaperLaws Emit
CHECK_DEADLOCK FALSE
