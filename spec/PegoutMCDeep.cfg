CONSTANT MaxTokens = 4
INIT Init
NEXT Next
INVARIANT ReadsBack
INVARIANT Show
CHECK_DEADLOCK FALSE
