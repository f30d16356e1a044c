SPECIFICATION Spec
CONSTANTS
 N = 5
INVARIANTS Prefix DoneLegal RepsLegal Emit
CHECK_DEADLOCK FALSE
