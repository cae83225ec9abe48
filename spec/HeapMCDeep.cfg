CONSTANT Depth = 6
INIT Init
NEXT Next
INVARIANT ImmutableDeep Frozen Separate Uniform Emit
CHECK_DEADLOCK FALSE
