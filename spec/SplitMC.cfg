CONSTANTS
  P = 3
  Parties = {1, 2}
  Holdings = {0, 1, 2}
  MaxKeyed = 3
INIT Init
NEXT Next
INVARIANT Composes
INVARIANT Running
INVARIANT Emit
PROPERTY OthersKept
CHECK_DEADLOCK FALSE
