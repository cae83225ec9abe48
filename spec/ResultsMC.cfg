CONSTANT MaxHops = 2
INIT Init
NEXT Next
INVARIANTS OneThing Typed Emit
CHECK_DEADLOCK FALSE
