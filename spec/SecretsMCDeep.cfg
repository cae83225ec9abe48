CONSTANTS MaxCalls = 2 MaxOuts = 3 Fails = {0, 1, 2, 3} Careless = ""
INIT Init
NEXT Next
INVARIANTS NeverTwice EnoughIsEnough AllMade Emit
CHECK_DEADLOCK FALSE
