CONSTANT Deep = TRUE
INIT Init
NEXT Next
INVARIANTS InDomain RoundTrip IdNoWit FlagExact HashWit Truncated Canonical Emit
CHECK_DEADLOCK FALSE
