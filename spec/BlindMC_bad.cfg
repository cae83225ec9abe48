CONSTANTS
  MaxIn = 2
  MaxOut = 2
  IssKinds = {"none", "AT", "R"}
  OutAssets = {"in1"}
  OutKinds = {"key", "keyzs", "keyfee", "keydone"}
  Stricts = {TRUE}
INIT Init
NEXT Next
INVARIANT StrictMeansAll
INVARIANT StrictIsStronger
INVARIANT OnlyAsked
INVARIANT ClosedBalance
INVARIANT Refusal
INVARIANT Ranges
INVARIANT Emit
CHECK_DEADLOCK FALSE
