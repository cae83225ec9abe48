CONSTANTS
  Depth = 9
  Kinds = {"none", "dir", "junk", "plain", "narrow", "z0", "z1"}
  Names = {"a", "b", "c"}
INIT Init
NEXT Next
INVARIANT Once
INVARIANT Retry
INVARIANT Emit
CHECK_DEADLOCK FALSE
