INIT Init
NEXT Next
CONSTANTS
 N = 3
INVARIANTS Ordered Nested Within Mirror Emit
CHECK_DEADLOCK FALSE
