CONSTANTS Depth = 4 MaxIn = 2 MaxOut = 1
INIT Init
NEXT Next
INVARIANTS Coinbase FlagSays FeeSane IssuanceSeen WitApart Travels Emit
CHECK_DEADLOCK FALSE
