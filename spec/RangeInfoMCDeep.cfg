CONSTANTS
  Exps <- AllExps
  Sizes <- AllSizes
  Msgs = {0, 64}
INIT Init
NEXT Next
INVARIANT Faithful
INVARIANT Nothing2
INVARIANT InRange
INVARIANT Covers
INVARIANT Width
INVARIANT Emit
CHECK_DEADLOCK FALSE
