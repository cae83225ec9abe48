CONSTANTS
  P = 2
  Parties = {1, 2, 3}
  Holdings = {0, 1}
  MaxKeyed = 2
INIT Init
NEXT Next
INVARIANT Composes
INVARIANT Running
INVARIANT Emit
PROPERTY OthersKept
CHECK_DEADLOCK FALSE
