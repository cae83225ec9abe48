CONSTANTS
  Depth = 4
  Kinds = {"none", "junk", "plain", "z0"}
  Names = {"a", "b"}
INIT Init
NEXT Next
INVARIANT Once
INVARIANT Retry
INVARIANT Emit
PROPERTY Kept
PROPERTY PathFile
CHECK_DEADLOCK FALSE
