INIT Init
NEXT Next
CONSTANTS Lo = 2 Hi = 7
INVARIANTS Emit
CHECK_DEADLOCK FALSE
