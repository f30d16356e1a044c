CONSTANT
  Depth = 4
SPECIFICATION Spec
INVARIANTS Untouched Known References Emit
CHECK_DEADLOCK FALSE
