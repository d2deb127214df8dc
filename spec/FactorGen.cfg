INIT Init
NEXT Next
CONSTANT Depth = 3
INVARIANTS CurIsLast Emit
CHECK_DEADLOCK FALSE
