CONSTANT Wide = TRUE
INIT Init
NEXT Next
INVARIANT ClassShown
INVARIANT Show
CHECK_DEADLOCK FALSE
