CONSTANT MaxIssued = 3
INIT Init
NEXT Next
INVARIANT Distinct
INVARIANT Emit
CHECK_DEADLOCK FALSE
