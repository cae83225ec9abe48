CONSTANTS MaxIns = 2 MaxOuts = 2 Careless = "no"
INIT Init
NEXT Next
INVARIANTS KeepsContract TellsTruth NoFaultNoFail Emit
CHECK_DEADLOCK FALSE
