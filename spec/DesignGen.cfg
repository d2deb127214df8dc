INIT Init
NEXT Next
CONSTANTS Rows = 4 Strata = 3 Units = 2
INVARIANTS Emit
CHECK_DEADLOCK FALSE
