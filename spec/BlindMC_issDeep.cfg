CONSTANTS
  MaxIn = 2
  MaxOut = 2
  IssKinds = {"none", "A", "AT", "R"}
  OutAssets = {"in1", "in2", "iss", "tok"}
  OutKinds = {"plain", "key"}
  Stricts = {TRUE}
INIT Init
NEXT Next
INVARIANT StrictMeansAll
INVARIANT StrictIsStronger
INVARIANT OnlyAsked
INVARIANT ClosedBalance
INVARIANT Refusal
INVARIANT Ranges
INVARIANT Emit
CHECK_DEADLOCK FALSE
