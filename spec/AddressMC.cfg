CONSTANT Fills = {"zero", "ff", "ramp", "lead"}
INIT Init
NEXT Next
INVARIANT Unambiguous
INVARIANT StripBlind
INVARIANT Readers
INVARIANT Emit
CHECK_DEADLOCK FALSE
