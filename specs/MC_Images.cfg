CONSTANT
  Depth = 3
SPECIFICATION Spec
INVARIANTS Made Emit
CHECK_DEADLOCK FALSE
