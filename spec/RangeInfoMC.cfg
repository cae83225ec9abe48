CONSTANTS
  Exps <- SomeExps
  Sizes = {0, 1, 2, 31, 32, 33, 52, 63, 64}
  Msgs = {0, 64}
INIT Init
NEXT Next
INVARIANT Faithful
INVARIANT Nothing2
INVARIANT InRange
INVARIANT Covers
INVARIANT Width
INVARIANT Emit
CHECK_DEADLOCK FALSE
