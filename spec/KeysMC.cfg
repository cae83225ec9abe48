CONSTANT MaxKeys = 2
INIT Init
NEXT Next
INVARIANT Distinct
INVARIANT Emit
CHECK_DEADLOCK FALSE
