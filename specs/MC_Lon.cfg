INIT Init
NEXT Next
CONSTANTS
 N = 3
INVARIANTS Laws Again Through Emit
CHECK_DEADLOCK FALSE
