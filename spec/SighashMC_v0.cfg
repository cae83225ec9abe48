CONSTANT Kind = {"v0"}
INIT Init
NEXT Next
INVARIANTS InDomain CommitsExactly Emit
CHECK_DEADLOCK FALSE
