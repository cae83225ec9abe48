CONSTANTS
  Vers = {0, 1, 16}
  Lens = {53, 65}
  Subst = {1, 2, 4, 8, 16, 31}
INIT Init
NEXT Next
INVARIANT ReadsAgree
INVARIANT Detected
INVARIANT ReadsBack
INVARIANT Emit
CHECK_DEADLOCK FALSE
