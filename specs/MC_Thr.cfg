INIT Init
NEXT Next
CONSTANTS
  Nums = {"2", "10", "-3", "2.0", "0.5"}
INVARIANTS Sorted WeakOrder Complete Emit
CHECK_DEADLOCK FALSE
