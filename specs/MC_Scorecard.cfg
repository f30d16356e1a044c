INIT Init
NEXT Next
CONSTANTS
 N = 3
INVARIANTS Pairing NcarSwap EmcSwap EmcSense CritLaws Tables Emit
CHECK_DEADLOCK FALSE
