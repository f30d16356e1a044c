INIT Init
NEXT Next
INVARIANTS Circular Sound Monotone TurnedBlocks Persistent Emit
CHECK_DEADLOCK FALSE
