INIT Init
NEXT Next
CONSTANT Depth = 2
INVARIANTS Fresh Emit
CHECK_DEADLOCK FALSE
