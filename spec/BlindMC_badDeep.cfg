CONSTANTS
  MaxIn = 2
  MaxOut = 2
  IssKinds = {"none", "A", "T", "AT", "R"}
  OutAssets = {"in1", "in2"}
  OutKinds = {"key", "keyzs", "keyfee", "keydone", "plain"}
  Stricts = {TRUE}
INIT Init
NEXT Next
INVARIANT StrictMeansAll
INVARIANT StrictIsStronger
INVARIANT OnlyAsked
INVARIANT ClosedBalance
INVARIANT Refusal
INVARIANT Ranges
INVARIANT Emit
CHECK_DEADLOCK FALSE
