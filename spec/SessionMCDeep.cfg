CONSTANTS MaxIns = 4 MaxOuts = 4 Careless = "no"
INIT Init
NEXT Next
INVARIANTS KeepsContract TellsTruth NoFaultNoFail Emit
CHECK_DEADLOCK FALSE
