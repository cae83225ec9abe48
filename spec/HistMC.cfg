CONSTANTS Depth = 4 MaxIn = 2 MaxOut = 1
INIT Init
NEXT Next
INVARIANTS BareId EmitIds
CHECK_DEADLOCK FALSE
