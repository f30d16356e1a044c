CONSTANT
  Runs = 1
SPECIFICATION Spec
INVARIANTS Own Apart Kept Emit
CHECK_DEADLOCK FALSE
