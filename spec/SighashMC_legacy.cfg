CONSTANT Kind = {"legacy"}
INIT Init
NEXT Next
INVARIANTS InDomain CommitsExactly Emit
CHECK_DEADLOCK FALSE
