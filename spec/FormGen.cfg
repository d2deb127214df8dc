INIT Init
NEXT Next
CONSTANTS Hi = 3
INVARIANTS Emit
CHECK_DEADLOCK FALSE
