INIT Init
NEXT Next
INVARIANTS SameCases FromAxes Twice Emit
CHECK_DEADLOCK FALSE
