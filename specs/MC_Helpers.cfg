CONSTANTS
  N = 4
  L = 4
INIT Init
NEXT Next
INVARIANTS Complete SameSet Kinds Signed Emit
CHECK_DEADLOCK FALSE
