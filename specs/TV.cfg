INIT Init
NEXT Next
POSTCONDITION Complete
CHECK_DEADLOCK FALSE
