CONSTANTS Depth = 5 MaxIn = 2 MaxOut = 2
INIT Init
NEXT Next
INVARIANTS BareId EmitIds
CHECK_DEADLOCK FALSE
