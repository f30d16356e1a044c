CONSTANTS
 N = 5
INIT Init
NEXT Next
INVARIANTS Shape Emit
CHECK_DEADLOCK FALSE
