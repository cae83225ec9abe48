INIT Init
NEXT Next
INVARIANT OnlyRight
INVARIANT OpensTo
INVARIANT Emit
CHECK_DEADLOCK FALSE
