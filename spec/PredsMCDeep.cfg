CONSTANTS Depth = 5 MaxIn = 2 MaxOut = 2
INIT Init
NEXT Next
INVARIANTS Coinbase FlagSays FeeSane IssuanceSeen WitApart Travels Emit
CHECK_DEADLOCK FALSE
