INIT Init
NEXT Next
CONSTANT Depth = 3
INVARIANTS Emit
CHECK_DEADLOCK FALSE
