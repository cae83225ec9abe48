CONSTANT Dev = 2
INIT Init
NEXT Next
INVARIANT TakenIffEach
INVARIANT FormsAgree
INVARIANT Show
CHECK_DEADLOCK FALSE
