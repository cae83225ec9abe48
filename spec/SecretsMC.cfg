CONSTANTS MaxCalls = 2 MaxOuts = 2 Fails = {2, 3} Careless = ""
INIT Init
NEXT Next
INVARIANTS NeverTwice EnoughIsEnough AllMade Emit
CHECK_DEADLOCK FALSE
