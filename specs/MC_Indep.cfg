CONSTANTS
 Depth = 3
SPECIFICATION Spec
INVARIANTS Harmless Ambient Emit
CHECK_DEADLOCK FALSE
